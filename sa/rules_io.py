"""Descriptor I/O semantics: C12 (cursor), C34 (open flags), C25 (attributes), C24 (paths), C30, C10, C11, C36."""
from core import *
from roles import *
from rules_fd import entry_writes, final_entry, err_name, exempt, edge_subst, facts_str, FDOPS, node_of
from rules_fs import *
from terms import *
import engine

APPEND_MASK = 1
O_CREATE, O_DIRECTORY, O_EXCLUSIVE, O_TRUNCATE = 1, 2, 4, 8


def band_values(facts, base_pred):
    """(mask, the values that `x & mask` can have) for an x with base_pred(x)"""
    for t, v in facts.items():
        if t.op == 'app' and t.a[0] == 'band' and t.a[2].op == 'int' and base_pred(t.a[1]):
            m = t.a[2].a[0]
            if m < 0 or bin(m).count('1') > 8:
                continue
            s, k = [], m
            while True:
                if (k in v) if type(v) is frozenset else (k not in v[1]):
                    s.append(k)
                if k == 0:
                    break
                k = (k - 1) & m
            yield m, s


def band_known(facts, mask, base_pred):
    """truth of `x & mask != 0` (mask of one bit) for an x with base_pred(x): True / False / None"""
    for m, s in band_values(facts, base_pred):
        if m & mask and s:
            if all(k & mask for k in s):
                return True
            if not any(k & mask for k in s):
                return False
    return None


def not_all(facts, mask, base_pred):
    """the bits of mask are known not to be all set"""
    return any(m & mask and not any(k & m & mask == m & mask for k in s) for m, s in band_values(facts, base_pred))


def append_known(facts, stat):
    return band_known(facts, APPEND_MASK, lambda x: under(x, stat) )


def under(x, base):
    while x.op == 'fld':
        if x is base:
            return True
        x = x.a[0]
    return x is base


def ranges(A, t, f):
    """rewrite sign conversions that are exact under the facts f"""
    m = {}
    for x in subterms(t):
        if x.op != 'app':
            continue
        nm = x.a[0]
        if nm.startswith('cast_int') and '_uint' in nm:
            y = x.a[1]
            if holds(A, f, lt(y, ZERO, True)) is False or holds(A, f, le(ZERO, y, True)) is True:
                m[x] = y
        elif nm == 'unsigned_abs':
            y = x.a[1]
            if holds(A, f, lt(y, ZERO, True)) is True:
                m[x] = scale(y, -1)
            elif holds(A, f, lt(y, ZERO, True)) is False or holds(A, f, le(ZERO, y, True)) is True:
                m[x] = y
            elif holds(A, f, le(y, ZERO, True)) is True:
                m[x] = scale(y, -1)
    if m:
        t = substitute(t, m, {})
    return t


def c12(c):
    R = Roles(c)
    f0 = lambda A: R.inner(R.entry(R.param(A, 1)), 'File')
    c.rule('C12.read', 'a sequential read starts at the cursor, continues where the previous buffer ended and advances the cursor by exactly the number of bytes it reports; '
           'a positioned read starts at the given offset and leaves the cursor alone')
    io = [('read', 'read', 'cursor'), ('read_vec', 'read', 'cursor'), ('read_vec_with_offset', 'read', 'offset'),
          ('write', 'write', 'cursor'), ('write_vec', 'write', 'cursor'), ('write_vec_with_offset', 'write', 'offset')]
    for m, meth, mode in io:
        if meth == 'write' and c.cur == 'C12.read':
            c.need(12, 'read positions and exits')
            c.rule('C12.write', 'a sequential write starts at the cursor (at the end of file in append mode), continues where the previous buffer ended and leaves the cursor '
                   'right after the last byte written; a positioned write starts at the given offset (or the end, in append mode) and leaves the cursor alone; the number reported is the number written')
        A = c.fs(m, split_fd)
        file = f0(A)
        cur0 = fld(file, 'cursor', 'File')
        stat = fld(file, 'stat', 'File')
        given = cur0 if mode == 'cursor' else R.param(A, 3)

        def base_ok(v, f):
            """v is the right start position under f"""
            if v is None:
                return False
            if meth == 'read':
                return v is given
            ap = append_known(f, stat)
            if ap is True:
                return v.op == 'fld' and v.a[1] == 'size' and md_of(v.a[0]) is not None and same_node(md_of(v.a[0])[1], fld(file, 'node', 'File')) and md_of(v.a[0])[0] is R.STOR
            if ap is False:
                return v is given
            return False
        evs = list(storage_events(A, meth))
        if not c.check(bool(evs), m + '.none', '%s never reaches Storage::%s' % (m, meth), A):
            continue
        res = {fld(e.res, 'Ok.0', 'Result') for e in evs}

        def step(new, old):
            d = sub(new, old)
            k, parts = lin_parts(d)
            if not parts:
                return k == 0
            if k != 0 or len(parts) != 1:
                return False
            (x, n), = parts.items()
            return n == 1 and all(y in res or y is ZERO for y in A.sources(x))
        for e in evs:
            for v, f in leaves(A, e.args[2], e.facts, step):
                c.check(base_ok(v, f), m + '.pos', '%s accesses the file at `%s`, not at the %s' % (m, show(e.args[2])[:120], 'cursor' if mode == 'cursor' else 'given offset'), A, e,
                        'start value %s under %s' % (show(v)[:150] if v else '?', facts_str(f)))
            c.check(e.args[1] is fld(file, 'node', 'File'), m + '.node', '%s accesses node `%s`' % (m, show(e.args[1])[:100]), A, e)
            b = e.args[3]
            c.check(buffer_ok(c, A, R, m, b, e.facts), m + '.buf', '%s transfers `%s`, not exactly the buffer of the caller' % (m, show(b)[:150]), A, e)
        for n in A.exits:
            if 'Ok' not in variant(A, n):
                continue
            ret = fld(n.exit, 'Ok.0', 'Result')
            for v, f in leaves(A, ret, n.outfacts, step):
                c.check(v is not None and (v is ZERO or v in res), m + '.ret', '%s reports `%s` bytes' % (m, show(ret)[:120]), A)
            T = R.read(A, n.edgefacts, n.outfacts, R.p_tab)
            x = final_entry(A, n, T, R.param(A, 1))
            if x is None:
                c.check(False, m + '.entry', 'descriptor entry after %s unknown: `%s`' % (m, show(T)[:200]), A)
                continue
            for v in A.sources(x):
                fin = fld(R.inner(v, 'File'), 'cursor', 'File')
                if mode == 'offset':
                    c.check(fin is cur0, m + '.cursor', '%s moves the cursor to `%s`' % (m, show(fin)[:120]), A)
                else:
                    d = sub(fin, ret)
                    for w, f in leaves(A, d, n.outfacts, step=lambda a, b: a is b):
                        c.check(base_ok(w, f), m + '.cursor', 'after %s the cursor is `%s`, not the start position plus the bytes reported `%s`' % (m, show(fin)[:120], show(ret)[:80]), A, None,
                                'difference %s under %s' % (show(w)[:150] if w else '?', facts_str(f)))
    c.need(16, 'write positions and exits')
    c.rule('C12.all', 'a successful vectored write / read looks at every buffer of the vector, in order')
    for m in ('read_vec', 'read_vec_with_offset', 'write_vec', 'write_vec_with_offset'):
        A = c.fs(m, split_fd)
        src = R.param(A, 2)
        nx = [e for e in A.events() if e.name == 'Iterator::next']
        for e in nx:
            base = {y for y in A.sources(e.args[0]) if not (y.op == 'upd' and y.a[0] == 'advance')}
            c.check(base == {app('iter', src)}, m + '.iter', '%s iterates over `%s` instead of the buffers passed' % (m, ' | '.join(show(b)[:80] for b in base)), A, e)
        if m.startswith('write'):
            for n in A.exits:
                if 'Ok' in variant(A, n):
                    okk = any(t.op == 'disc' and t.a[0].op == 'app' and t.a[0].a[0] == 'next' and v == frozenset([0]) for t, v in n.outfacts.items()) \
                        or any(x.op == 'phi' and counts(A, x) and holds(A, n.outfacts, le(app('len', src), x)) is True for t in n.outfacts for x in subterms(t))
                    c.check(okk, m + '.complete', '%s can succeed without having written every buffer' % m, A)
    c.need(4, 'buffer iterations')
    c.rule('C12.seek', 'seek moves the cursor to offset / cursor+offset / size+offset as asked, refuses negative positions and positions relative to the end beyond it, and reports the new position')
    A = c.fs('seek', split_fd)
    file = f0(A)
    cur0 = fld(file, 'cursor', 'File')
    delta, wh = R.param(A, 2), R.param(A, 3)
    W = {v['name']: int(v['discr']) for v in R.enums['Whence'][1]['variants']}
    for n in A.exits:
        if 'Ok' not in variant(A, n):
            T = R.read(A, n.edgefacts, n.outfacts, R.p_tab)
            c.check(T is R.TAB, 'seek.err', 'a refused seek changes the descriptor', A)
            continue
        ret = fld(n.exit, 'Ok.0', 'Result')
        T = R.read(A, n.edgefacts, n.outfacts, R.p_tab)
        x = final_entry(A, n, T, R.param(A, 1))
        fin = fld(R.inner(x, 'File'), 'cursor', 'File')
        c.check(fin is ret, 'seek.ret', 'seek reports `%s` but moves the cursor to `%s`' % (show(ret)[:100], show(fin)[:100]), A)
        for v, f in leaves(A, ret, n.outfacts):
            w = f.get(mk('disc', wh))
            if v is None or type(w) is not frozenset or len(w) != 1:
                c.check(False, 'seek.pos', 'position `%s` computed without looking at whence' % show(ret)[:100], A, None, facts_str(f))
                continue
            w = next(iter(w))
            sz = [fld(e.res, 'Ok.0', 'Result') for e in storage_events(A, 'get_metadata')]
            sz = [fld(s, 'size', 'Metadata') for s in sz]
            v2 = checked(A, ranges(A, v, f), f)
            okk = False
            if w == W['SET']:
                okk = v2 is delta
            elif w == W['CUR']:
                okk = v2 is add(cur0, delta)
            elif w == W['END']:
                okk = any(v2 is add(s, delta) for s in sz)
            c.check(okk, 'seek.%d' % w, 'seek (whence %d) computes position `%s`' % (w, show(v)[:150]), A, None, facts_str(f))
    c.need(5, 'seek results')
    c.rule('C12.tell', 'tell reports the cursor and changes nothing')
    A = c.fs('tell', split_fd)
    for n in A.exits:
        if 'Ok' in variant(A, n):
            c.check(fld(n.exit, 'Ok.0', 'Result') is fld(f0(A), 'cursor', 'File') and R.read(A, n.edgefacts, n.outfacts, R.p_tab) is R.TAB, 'tell', 'tell reports `%s`' % show(n.exit)[:150], A)
    c.need(1, 'tell exit')
    c.rule('C12.open', 'a newly opened descriptor has the cursor at 0, or at the end of the file when it is opened for appending')
    for m in ('open', 'create_hard_link', 'rename'):
        A = c.fs(m)
        for (e, k, new, old, facts) in entry_writes(c, R, A):
            for v in A.sources(new):
                if not (v.op == 'agg' and v.a[1] == 'File'):
                    continue
                cu = fld(v.a[3], 'cursor', 'File')
                node = fld(v.a[3], 'node', 'File')
                for w, f in leaves(A, cu, facts):
                    stat = fld(v.a[3], 'stat', 'File')
                    ap = append_known(f, stat) if stat.op == 'init' else None
                    if w is ZERO:
                        okk = ap is False or stat.op != 'init'
                    else:
                        okk = w is not None and w.op == 'fld' and w.a[1] == 'size' and md_of(w.a[0]) is not None and ap is True
                    c.check(okk, m + '.cursor', 'a descriptor is opened with the cursor at `%s`' % (show(w)[:100] if w else '?'), A, e, facts_str(f))
    c.need(3, 'opened descriptors')


def checked(A, t, f):
    """checked_add(..).Some.0 under a known success"""
    m = {}
    for x in subterms(t):
        if x.op == 'fld' and x.a[1] in ('Some.0', 'Ok.0') and x.a[0].op == 'app' and x.a[0].a[0] in ('checked_add', 'checked_sub', 'checked_add_signed', 'checked_sub_unsigned'):
            y = x.a[0]
            m[x] = add(y.a[1], y.a[2]) if 'add' in y.a[0] else sub(y.a[1], y.a[2])
    return substitute(t, m, {}) if m else t


def counts(A, i):
    """i is a counter that runs 0, 1, 2, ..."""
    if i.op != 'phi' or i not in A.phi_in:
        return False
    seen, zero, one = set(), False, False
    for y in A.phi_in[i]:
        if y.op == 'bot' or y is i:
            continue
        if y is ZERO:
            zero = True
        elif sub(y, i) is ONE or y is add(i, ONE):
            one = True
        elif y.op == 'phi' and all(z is i or sub(z, i) is ONE for z in A.phi_in.get(y, [None]) if z is not None and z.op != 'bot'):
            one = True
        else:
            return False
    return zero


def buffer_ok(c, A, R, m, b, facts={}):
    if m == 'read':
        return b is R.param(A, 2)
    if b.op == 'app' and b.a[0] == 'raw':
        p, n = b.a[1], b.a[2]
        if p.op == 'fld' and n.op == 'fld' and p.a[0] is n.a[0] and p.a[1] == 'buf' and n.a[1] == 'len':
            x = p.a[0]
            if x.op == 'app' and x.a[0] == 'idx' and counts(A, x.a[2]):
                v = x.a[1]
                if v is R.param(A, 2) and m != 'write':
                    return holds(A, facts, lt(x.a[2], app('len', v))) is True
                # a one-element list of the caller's buffer
                return m == 'write' and v.op == 'agg' and len(v.a) == 4 and contains(v, R.param(A, 2)) and any(y is app('len', R.param(A, 2)) for y in subterms(v))
            return x.op == 'fld' and x.a[0].op == 'app' and x.a[0].a[0] == 'next'
        return m == 'write' and contains(p, R.param(A, 2)) and n is app('len', R.param(A, 2))
    return m == 'write' and b is R.param(A, 2)


# ------------------------------------------------------------------ C34
def flag_known(f, R, A, mask):
    fl = R.param_of_type(A, 'OpenFlags')
    return band_known(f, mask, lambda x: fl is not None and under(x, fl))


def lookup_missed(f):
    """some component of the path was looked up by name and not found"""
    return any(t.op == 'disc' and ((sapp(t.a[0], 'get_direntry_index_by_name') and v == frozenset([0])) or (sapp(t.a[0], 'get_direntry') and v == frozenset([1]))) for t, v in f.items())


def bypass(A, e, pred_ev, pred_edge, exit_ok):
    """an execution entry -> e -> exit exists that executes no event of pred_ev and crosses no edge whose facts satisfy pred_edge"""
    g = A.g

    def edge_ok(a, b):
        for k, s in A.nodelist[b].ins.items():
            if k[0] == a and not pred_edge(s.facts):
                return True
        return False
    if pred_edge(e.facts):
        return False
    if g.must_before(e, pred_ev, edge_ok):
        return False
    return bool(g.must_after(e, pred_ev, exit_ok, edge_ok))


def opened(c, R, A):
    """(event, key, kind, payload, facts) of entries put into the descriptor table, one per possible value"""
    for (e, k, new, old, facts) in entry_writes(c, R, A):
        if new is None:
            continue
        for v in A.sources(new):
            if v.op == 'agg' and v.a[1] in ('File', 'Dir'):
                yield e, k, v.a[1], v.a[3], facts


def entry_dir_node(R, x):
    """x is the node of an open directory descriptor"""
    if x.op == 'fld' and x.a[1] == 'node' and x.a[0].op == 'fld' and x.a[0].a[1] == R.payload['Dir'][0]:
        y = x.a[0].a[0]
        return y.op == 'app' and y.a[0] == 'at' and strip(y.a[1]) is R.TAB
    return False


def c34(c):
    R = Roles(c)
    A = c.fs('open')
    c.rule('C34.create', 'open creates files or directories only when asked to (CREATE)')
    for e in list(storage_events(A, 'put_direntry', 'new_node')) + [p.e for p in puts(A) if p.lit]:
        c.check(A.g.established(e, lambda f: flag_known(f, R, A, O_CREATE) is True), 'create', 'open can create an entry although CREATE was not given', A, e, facts_str(e.facts))
    c.need(6, 'creation sites')
    c.rule('C34.excl', 'with CREATE and EXCLUSIVE an existing file or directory is never opened')
    for e, k, kind, pay, facts in opened(c, R, A):
        c.check(A.g.established(e, lambda f: not_all(f, O_CREATE | O_EXCLUSIVE, lambda x: under(x, R.param_of_type(A, 'OpenFlags'))) or lookup_missed(f)), 'excl.' + kind,
                'open can return a descriptor of an existing entry although CREATE and EXCLUSIVE were given', A, e, facts_str(e.facts))
    c.need(3, 'descriptor creations')
    c.rule('C34.trunc', 'with TRUNCATE an existing regular file is emptied before the descriptor is returned; without it no file loses data')
    cuts = [p for p in puts(A) if not p.lit and p.ch.get('size') is ZERO] 
    for e, k, kind, pay, facts in opened(c, R, A):
        if kind != 'File':
            continue
        node = fld(pay, 'node', 'File')
        ms = [p.e for p in cuts if same_node(p.node, node)] + [x for x in storage_events(A, 'new_node')] + \
             [x for x in storage_events(A, 'resize_file') if same_node(x.args[1], node) and x.args[2] is ZERO]
        c.check(not bypass(A, e, lambda x: any(x is m for m in ms), lambda f: flag_known(f, R, A, O_TRUNCATE) is False or lookup_missed(f), may_ok(A)), 'trunc',
                'open can succeed on an existing file with TRUNCATE without emptying it', A, e, facts_str(e.facts))
    for p in puts(A):
        if not p.lit and 'size' in p.ch and p.delta('size') != 1:
            c.check(A.g.established(p.e, lambda f: flag_known(f, R, A, O_TRUNCATE) is True), 'cut', 'open changes the size of a file although TRUNCATE was not given', A, p.e, facts_str(p.e.facts))
    for x in storage_events(A, 'resize_file', 'rm_file', 'write'):
        c.check(A.g.established(x, lambda f: flag_known(f, R, A, O_TRUNCATE) is True), 'cut', 'open changes the content of a file although TRUNCATE was not given', A, x)
    c.need(3, 'truncation sites')
    c.rule('C34.dir', 'with DIRECTORY no regular file is created or opened')
    for e, k, kind, pay, facts in opened(c, R, A):
        if kind == 'File':
            c.check(A.g.established(e, lambda f: flag_known(f, R, A, O_DIRECTORY) is False), 'dir.open', 'open returns a descriptor of a regular file although DIRECTORY was given', A, e, facts_str(e.facts))
    for p in puts(A):
        if p.lit:
            ft = fld(p.v, 'file_type', 'Metadata')
            for v, f in leaves(A, ft, p.e.facts):
                d = mk('disc', v) if v is not None and v.op != 'agg' else None
                reg = v is None or (v.a[1] != 'Directory' if v.op == 'agg' else f.get(d) != frozenset([R.FT['Directory']]))
                if reg:
                    c.check(A.g.established(p.e, lambda g: flag_known(g, R, A, O_DIRECTORY) is False), 'dir.create', 'open creates a regular file although DIRECTORY was given', A, p.e)
                else:
                    c.ob(1)
    c.need(3, 'regular files opened or created')
    c.rule('C34.kind', 'a file descriptor always refers to a regular file, a directory descriptor to a directory; the other is never handed out')
    for m in STRUCT:
        A = c.fs(m)
        for e, k, kind, pay, facts in opened(c, R, A):
            node = fld(pay, 'node', kind)
            want = R.FT['RegularFile'] if kind == 'File' else R.FT['Directory']
            alln = [norm_node(x) for x in A.sources(node)]
            if kind == 'Dir' and all(entry_dir_node(R, x) for x in alln):
                c.ob(1)         # the directory of an open descriptor
                continue

            def pred(f, node=node, want=want):
                for t, v in f.items():
                    if t.op == 'disc' and t.a[0].op == 'fld' and t.a[0].a[1] == 'file_type':
                        mm = md_of(t.a[0].a[0])
                        if mm and same_node(mm[1], node) and v == frozenset([want]):
                            return True
                return False
            c.check(A.g.established(e, pred, [node]), '%s.%s' % (m, kind), '%s hands out a %s descriptor of `%s` without having checked what it is' % (m, kind, show(node)[:80]), A, e, facts_str(e.facts))
    c.need(6, 'descriptors handed out')
    c.rule('C34.node', 'the descriptor returned refers to the entry found or created under the directory and path given')
    for m in ('open', 'create_open_directory'):
        A = c.fs(m)
        d = fld(R.inner(R.entry(R.param(A, 1)), 'Dir'), 'node', 'Dir')
        fixed_keys = {R.param(A, 1)}
        for e, k, kind, pay, facts in opened(c, R, A):
            if k in fixed_keys:
                continue
            node = fld(pay, 'node', kind)
            okk = True
            for x in A.sources(node):
                if x is d or sapp(x, 'new_node'):
                    continue
                if x.op == 'fld' and x.a[1] == 'node' and de_of(x.a[0]):
                    okk = okk and resolve_start(A, de_of(x.a[0])[1], d)
                elif x.op == 'app' and x.a[0] == 'at' and x.a[2].op == 'agg':
                    okk = okk and fld(x.a[2], '0', 'tuple') is d and fld(x.a[2], '1', 'tuple') is R.param(A, 2)
                else:
                    okk = False
            strs = {x for x in provenance(A, node) if x.op == 'init' and x in strparams(c, A)}
            c.check(okk and strs <= {R.param(A, 2)}, m + '.node', '%s returns a descriptor of `%s`, not of the entry its path names' % (m, show(node)[:100]), A, e)
    c.need(4, 'descriptors handed out')


# ------------------------------------------------------------------ C25
READONLY = ['metadata', 'metadata_from_node', 'get_stat', 'get_direntry', 'with_direntries', 'tell', 'seek', 'read', 'read_vec', 'read_vec_with_offset',
            'open_metadata', 'flush', 'advice', 'allocate', 'root_fd', 'root_path', 'get_storage_version', 'close', 'renumber', 'set_stat']


def any_node(R, fd):
    return {fld(R.inner(R.entry(fd), k), 'node', k) for k in ('File', 'Dir')}


def c25(c):
    R = Roles(c)
    c.rule('C25.set', 'each setter changes exactly its own attribute of exactly the file the descriptor refers to, to exactly the value given, whenever it reports success')
    setters = {'set_file_size': ('size', None, 'size'), 'set_file_size_limit': ('maximum_size_allowed', 'some', 'limit'),
               'set_accessed_time': ('times', 'accessed', 'access time'), 'set_modified_time': ('times', 'modified', 'modification time')}
    for m, (f, sub_, what) in setters.items():
        A = c.fs(m, split_fd)
        val = R.param(A, 2)
        nodes = any_node(R, R.param(A, 1))
        ps = puts(A)
        for p in ps:
            c.check(p.node in nodes and all(x in nodes for x in A.sources(p.node)), m + '.node', '%s changes the metadata of `%s`, not of the file the descriptor refers to' % (m, show(p.node)[:100]), A, p.e)
            if not c.check(p.md is not None and same_node(p.md[1], p.node), m + '.base', '%s writes metadata that was not read from the same file: `%s`' % (m, show(p.v)[:150]), A, p.e):
                continue
            ch = {k: v for k, v in p.ch.items() if v is not fld(p.base, k, 'Metadata')}
            c.check(set(ch) == {f}, m + '.other', '%s changes %s' % (m, ', '.join(sorted(ch)) or 'nothing'), A, p.e)
            v = p.ch.get(f)
            if v is None:
                continue
            if sub_ is None:
                c.check(v is val, m + '.value', '%s sets the %s to `%s`' % (m, what, show(v)[:100]), A, p.e)
            elif sub_ == 'some':
                c.check(v.op == 'agg' and v.a[1] == 'Some' and v.a[3] is val, m + '.value', '%s sets the %s to `%s`' % (m, what, show(v)[:100]), A, p.e)
            else:
                old = fld(p.base, 'times', 'Metadata')
                for t in ('accessed', 'modified', 'created'):
                    nv = fld(v, t, 'Times')
                    c.check(nv is (val if t == sub_ else fld(old, t, 'Times')), m + '.' + t, '%s sets times.%s to `%s`' % (m, t, show(nv)[:100]), A, p.e)
        for n in A.exits:
            if 'Ok' in variant(A, n):
                evs, exits, _ = A.g.from_entry(lambda e: any(e is p.e for p in ps))
                c.check(not any(x is n for x in exits), m + '.done', '%s can report success without having stored the %s' % (m, what), A)
        for e in storage_events(A, *(ST_MUT - {'put_metadata'})):
            c.check(False, m + '.effect', '%s also calls Storage::%s' % (m, e.meth), A, e)
    c.need(20, 'setter writes')
    c.rule('C25.get', 'metadata, metadata_from_node, open_metadata and get_stat report what is stored for the file asked for')
    A = c.fs('metadata_from_node')
    for n in A.exits:
        x = n.exit
        okk = sapp(x, 'get_metadata') and x.a[1] is R.STOR and x.a[2] is R.param(A, 1)
        c.check(okk or only_err(A, n) or (fld(x, 'Ok.0', 'Result') is fld(app(STORAGE + '::get_metadata', R.STOR, R.param(A, 1)), 'Ok.0', 'Result')), 'metadata_from_node', 'metadata_from_node returns `%s`' % show(x)[:150], A)
    A = c.fs('metadata', split_fd)
    nodes = any_node(R, R.param(A, 1))
    std = 2
    for n in A.exits:
        for x, f in leaves(A, n.exit, n.outfacts):
            if x is None:
                c.check(False, 'metadata', 'metadata returns `%s`' % show(n.exit)[:150], A)
                continue
            if x.op == 'agg' and x.a[1] == 'Err':
                continue
            if holds(A, f, le(R.param(A, 1), INT(std))) is True:
                c.ob(1)
                continue
            if sapp(x, 'get_metadata'):
                r = x
            else:
                y = fld(x, 'Ok.0', 'Result')
                r = y.a[0] if md_of(y) else None
            c.check(r is not None and r.a[1] is R.STOR and r.a[2] in nodes, 'metadata', 'metadata returns `%s`' % show(x)[:150], A)
    A = c.fs('get_stat', split_fd)
    ent = R.entry(R.param(A, 1))
    for n in A.exits:
        if 'Ok' not in variant(A, n):
            continue
        k = n.outfacts.get(mk('disc', ent))
        kind = [x for x in ('File', 'Dir') if k == frozenset([R.ED[x]])]
        if not c.check(len(kind) == 1, 'get_stat.kind', 'get_stat does not look at the kind of the descriptor', A):
            continue
        ret = fld(n.exit, 'Ok.0', 'Result')
        ft, stt = fld(ret, '0', 'tuple'), fld(ret, '1', 'tuple')
        want = {'File': 'RegularFile', 'Dir': 'Directory'}[kind[0]]
        c.check(ft.op == 'agg' and ft.a[1] == want and stt is fld(R.inner(ent, kind[0]), 'stat', kind[0]), 'get_stat', 'get_stat returns `%s`' % show(ret)[:150], A)
    A = c.fs('open_metadata')
    d = fld(R.inner(R.entry(R.param(A, 1)), 'Dir'), 'node', 'Dir')
    for n in A.exits:
        if 'Ok' not in variant(A, n):
            continue
        y = fld(n.exit, 'Ok.0', 'Result')
        for x, f in ((x, n.outfacts) for x in A.sources(y)):
            mm = md_of(x)
            okk = mm is not None
            for z in (A.sources(mm[1]) if mm else ()):
                if z is d:
                    continue
                if z.op == 'fld' and z.a[1] == 'node' and de_of(z.a[0]):
                    okk = okk and resolve_start(A, de_of(z.a[0])[1], d)
                elif z.op == 'app' and z.a[0] == 'at' and z.a[2].op == 'agg':
                    okk = okk and fld(z.a[2], '0', 'tuple') is d and fld(z.a[2], '1', 'tuple') is R.param(A, 2)
                else:
                    okk = False
            c.check(okk, 'open_metadata', 'open_metadata returns `%s`' % show(x)[:150], A)
    c.need(6, 'attribute reads')
    c.rule('C25.pure', 'reading, positioning and descriptor operations change no file, directory or attribute')
    for m in READONLY:
        if not c.has('FileSystem', m):
            continue
        A = c.fs(m, split_fd) if m in ('read', 'read_vec', 'read_vec_with_offset', 'seek', 'tell', 'renumber', 'close', 'set_stat') else c.fs(m)
        c.ob(1)
        for e in storage_events(A, *ST_MUT):
            c.check(False, m + '.pure', '%s calls Storage::%s' % (m, e.meth), A, e)
    c.need(15, 'read-only operations')
    c.rule('C25.keep', 'structural operations change no attribute of existing files other than link count and size; new files get the attributes given at creation')
    for m in STRUCT:
        A = c.fs(m)
        for p in puts(A):
            if not p.lit:
                ch = {k for k, v in p.ch.items() if v is not fld(p.base, k, 'Metadata')}
                c.check(ch <= {'link_count', 'size'}, m + '.attr', '%s changes %s of `%s`' % (m, ', '.join(sorted(ch)), show(p.node)[:80]), A, p.e)
                continue
            md = lambda f: fld(p.v, f, 'Metadata')
            c.check(md('node') is p.node and sapp(p.node, 'new_node'), m + '.new.node', '%s records node `%s` for the new node `%s`' % (m, show(md('node'))[:80], show(p.node)[:80]), A, p.e)
            ct = md('times')
            ts = [fld(ct, t, 'Times') for t in ('accessed', 'modified', 'created')]
            c.check(ts[0] is ts[1] and ts[1] is ts[2], m + '.new.times', '%s creates a node with differing times `%s`' % (m, show(ct)[:150]), A, p.e)
            cts = ctime_ok(c, R, A, m, ts[2])
            c.check(cts, m + '.new.ctime', '%s creates a node with creation time `%s`' % (m, show(ts[2])[:100]), A, p.e)
            for nf in ('maximum_size_allowed', 'first_dir_entry', 'last_dir_entry'):
                x = md(nf)
                c.check(x.op == 'agg' and x.a[1] == 'None', m + '.new.' + nf, '%s creates a node with %s `%s`' % (m, nf, show(x)[:80]), A, p.e)
            ft, ck = md('file_type'), md('chunk_type')
            for v, f in leaves(A, mk('agg', 'pair', None, ('a', 'b'), ft, ck), p.e.facts):
                if v is None:
                    c.check(False, m + '.new.chunk', 'chunk type of a new node unknown', A, p.e)
                    continue
                a, b = v.a[3], v.a[4]
                if a.op == 'agg':
                    isfile = a.a[1] == 'RegularFile'
                else:
                    fd_ = f.get(mk('disc', a))
                    isfile = (fd_ == frozenset([R.FT['RegularFile']])) if type(fd_) is frozenset and len(fd_) == 1 else None
                if isfile is True:
                    okk = b.op == 'agg' and b.a[1] == 'Some' and sapp(b.a[3], 'chunk_type')
                elif isfile is False:
                    okk = b.op == 'agg' and b.a[1] == 'None'
                else:
                    okk = False
                c.check(okk, m + '.new.chunk', '%s creates a `%s` with chunk type `%s`' % (m, show(a)[:60], show(b)[:80]), A, p.e)
        for e in entput(A):
            ent = e.args[3]
            node = ent_node(e)
            et = fld(ent, 'entry_type', 'DirEntry')
            okk = et.op == 'agg' and et.a[1] == 'Some'
            if okk:
                t = et.a[3]
                lit = [p for p in puts(A) if p.lit and p.node is node]
                mdt = t.op == 'fld' and t.a[1] == 'file_type' and md_of(t.a[0]) and same_node(md_of(t.a[0])[1], node)
                okk = bool(mdt) or (bool(lit) and all(x is t or set(A.sources(x)) == set(A.sources(t)) for x in [fld(p.v, 'file_type', 'Metadata') for p in lit if between_ok(A, p, e)] or [None] if x is not None)) 
            c.check(okk, m + '.entry', '%s records entry type `%s` for node `%s`' % (m, show(et)[:80], show(node)[:80]), A, e)
    c.need(60, 'attributes of new and existing nodes')
    import rules_ly
    rules_ly.kept(c, R, 'C25.kept')


def between_ok(A, p, e):
    return A.g.must_before(e, lambda x: x is p.e)


def ctime_ok(c, R, A, m, t):
    """creation time of a node made by operation m: the time passed in, or the creation time of the file being linked"""
    allowed = set()
    for i in range(1, A.root['argc'] + 1):
        if c.P.types[A.root['locals'][i]].get('k') == 'uint' and c.P.types[A.root['locals'][i]].get('s') == 'u64':
            allowed.add(mk('init', A.argnames[i - 1]))
    if m in ('create_hard_link', 'rename'):
        return t.op == 'fld' and t.a[1] == 'created'
    if m == 'mount_memory_file':
        return True
    return t in allowed


# ------------------------------------------------------------------ C24
PATHOPS = STRUCT + ['open_metadata', 'remove_recursive']


def name_text(t):
    """the string a FileName value is made from"""
    for x in subterms(t):
        if x.op == 'app' and x.a[0] == 'len':
            return x.a[1]
    return None


def is_str(t, s):
    return t.op == 'app' and t.a[0] == 'str' and t.a[1] == s


def str_fact(f, x, lit, want):
    """is `x == lit` known to have truth value `want`"""
    for t, v in f.items():
        if t.op == 'app' and t.a[0] in ('eqv', 'eq') and len(t.a) >= 3:
            a, b = t.a[1], t.a[2]
            if (b is x and lit_of(a) == lit) or (a is x and lit_of(b) == lit):
                if v == frozenset([0]):
                    return want is False
                if not_val(v, 0):
                    return want is True
    return False


def not_val(v, k):
    return (type(v) is frozenset and k not in v) or (type(v) is tuple and k in v[1])


def lit_of(t):
    if t.op == 'app' and t.a[0] == 'str':
        return t.a[1]
    if t.op == 'str':
        return t.a[0]
    return None


def len_nonzero(A, f, x):
    for t, v in f.items():
        if t.op == 'app' and t.a[0] in ('len',) and t.a[1] is x and not_val(v, 0):
            return True
        if t.op == 'app' and t.a[0] in ('is_empty',) and t.a[1] is x and v == frozenset([0]):
            return True
    return holds(A, f, eq(app('len', x), ZERO)) is False or holds(A, f, le(app('len', x), ZERO)) is False


def split_part(A, x):
    """x is one '/'-separated part of a path parameter: returns that path"""
    for y in A.sources(x):
        if not (y.op == 'fld' and y.a[1] == 'Some.0' and is_app(y.a[0], 'next', 'next_back')):
            continue
        for z in vec_base(A, y.a[0].a[1]):
            while is_app(z, 'iter', 'into_iter'):
                z = z.a[1]
            if z.op == 'app' and z.a[0].startswith('split') and any(k.op == 'int' and k.a[0] == 47 or lit_of(k) == '/' for k in z.a[2:] if isinstance(k, T)):
                return z.a[1]
    return None


def vec_base(A, v):
    """what a vector was built from: its base values below pushes and pops"""
    out, seen, work = set(), set(), [v]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'upd' and x.a[0] in ('push', 'pop', 'popped', 'advance', 'clear'):
            work.append(x.a[1])
        elif x.op == 'phi' and x in A.phi_in:
            work.extend(A.phi_in[x])
        else:
            out.add(x)
    return out


def c24(c):
    R = Roles(c)
    c.rule('C24.abs', 'an absolute path is refused before anything is looked up with it')
    for m in PATHOPS:
        A = c.fs(m)
        paths = strparams(c, A)
        for e in storage_events(A, 'get_direntry_index_by_name', 'put_direntry', 'rm_direntry'):
            def pred(f):
                for t, v in f.items():
                    if t.op == 'app' and t.a[0] == 'starts_with' and v == frozenset([0]) and lit_of(t.a[2]) in ('/', 47) or (t.op == 'app' and t.a[0] == 'starts_with' and v == frozenset([0]) and t.a[2].op == 'int' and t.a[2].a[0] == 47):
                        return True
                return False
            c.check(A.g.established(e, pred), m + '.abs', '%s looks up a path without having refused absolute ones' % m, A, e)
    c.need(20, 'lookups')
    c.rule('C24.up', '".." never leads above the directory the path starts from')
    for m in PATHOPS:
        A = c.fs(m)
        for e in A.events():
            if e.cls == 'Vec' and e.meth == 'pop' and any(x.op in ('upd', 'phi') or is_app(x, 'vecnew') for x in [e.args[0]]):
                if not any(y.op == 'upd' and y.a[0] == 'push' and split_part(A, y.a[2]) is not None for y in all_versions(A, e.args[0]) if len(y.a) > 2 and isinstance(y.a[2], T)):
                    continue
                okk = len_nonzero(A, e.facts, e.args[0])
                if not okk:
                    d = mk('disc', e.res)
                    empty = [b for a, b in A.g.fact_edges(d, 0)]
                    some = [b for a, b in A.g.fact_edges(d, 1)]
                    # nothing is resolved any further with these parts, and the operation does not succeed with them
                    evs, exits, _ = A.g.reach_nodes(empty, lambda x: (x.meth or '').startswith('split'))
                    okk = bool(empty) and bool(some) and all(only_err(A, n) for n in exits) \
                        and not any(x.cls == 'Vec' and x.meth == 'push' and split_part(A, x.args[1]) is not None for x in evs)
                c.check(okk, m + '.up', '%s goes on after ".." at the starting directory' % m, A, e)
    c.need(8, 'resolutions of ".."')
    c.rule('C24.parts', 'empty parts and "." are skipped, ".." goes one up: none of them is ever taken for a name')
    for m in PATHOPS:
        A = c.fs(m)
        for e in A.events():
            if e.cls == 'Vec' and e.meth == 'push' and split_part(A, e.args[1]) is not None:
                x = e.args[1]
                for lit in ('.', '..'):
                    c.check(A.g.established(e, lambda f: str_fact(f, x, lit, False), [x]), m + '.' + lit, '%s takes "%s" for a name' % (m, lit), A, e)
                c.check(A.g.established(e, lambda f: len_nonzero(A, f, x) or str_fact(f, x, '', False), [x]), m + '.empty', '%s takes an empty part for a name' % m, A, e)
    c.need(24, 'name parts')
    c.rule('C24.names', 'the names looked up are the parts of the path given, in order, each in the directory the previous one leads to')
    for m in PATHOPS:
        if m == 'remove_recursive':
            continue            # made of the other operations only, see C30 / C36
        A = c.fs(m)
        paths = strparams(c, A)
        for e in storage_events(A, 'get_direntry_index_by_name'):
            d, nm = fld(e.args[1], '0', 'tuple'), fld(e.args[1], '1', 'tuple')
            x = name_text(nm)
            okk = x is not None
            src = set()
            for y in (A.sources(x) if x is not None else ()):
                if not (y.op == 'fld' and y.a[1] == 'Some.0' and is_app(y.a[0], 'next')):
                    okk = False
                    continue
                it = y.a[0].a[1]
                bases = vec_base(A, it)
                for b in bases:
                    if not is_app(b, 'iter', 'into_iter'):
                        okk = False
                    else:
                        src |= {z for z in all_versions(A, b.a[1])}
            pushes = [z for z in src if z.op == 'upd' and z.a[0] == 'push']
            okk = okk and all(z.op in ('upd', 'phi') or is_app(z, 'vecnew') or is_app(z, 'mapnew') for z in src)
            pp = {split_part(A, z.a[2]) for z in pushes}
            okk = okk and bool(pushes) and len(pp) == 1 and (pp <= paths or all(p is None or p.op == 'phi' or True for p in pp))
            c.check(okk, m + '.name', '%s looks up `%s`, which is not a part of its path' % (m, show(nm)[:120]), A, e)
    c.need(12, 'name lookups')
    c.rule('C24.end', 'an entry is removed only after the whole path was followed, and only if the path names an entry (has at least one part)')
    for m in PATHOPS:
        A = c.fs(m)
        for e in entrm(A):
            end = lambda f: any(t.op == 'disc' and is_app(t.a[0], 'next') and v == frozenset([0]) and not is_app(t.a[0].a[1], 'split') and parts_iter(A, t.a[0].a[1]) for t, v in f.items())
            c.check(A.g.established(e, end), m + '.end', '%s removes an entry before its path was followed to the end' % m, A, e)
            nonempty = lambda f: any(((t.op == 'app' and t.a[0] == 'len' and not_val(v, 0)) and vec_of_parts(A, t.a[1])) or
                                     (t.op in ('eq0', 'le0') and v == frozenset([0]) and any(is_app(y, 'len') and vec_of_parts(A, y.a[1]) for y in lin_parts(t.a[0])[1])) or
                                     (t.op == 'disc' and v == frozenset([1]) and is_app(t.a[0], 'next', 'last', 'first', 'pop', 'split_last', 'split_first') and (parts_iter(A, t.a[0].a[1]) or vec_of_parts(A, t.a[0].a[1]))) for t, v in f.items())
            c.check(A.g.established(e, nonempty), m + '.base', '%s removes an entry although the path names the starting directory itself' % m, A, e)
    c.need(6, 'entry removals')


def all_versions(A, v):
    out, work = set(), [v]
    while work:
        x = work.pop()
        if x in out:
            continue
        out.add(x)
        if x.op == 'upd' and x.a[0] in ('push', 'pop', 'popped', 'advance', 'clear'):
            work.append(x.a[1])
        elif x.op == 'phi' and x in A.phi_in:
            work.extend(A.phi_in[x])
    return out


def vec_of_parts(A, v):
    return any(y.op == 'upd' and y.a[0] == 'push' and isinstance(y.a[2], T) and split_part(A, y.a[2]) is not None for y in all_versions(A, v))


def parts_iter(A, it):
    return any(is_app(b, 'iter', 'into_iter') and vec_of_parts(A, b.a[1]) for b in vec_base(A, it))


# ------------------------------------------------------------------ C10
def err_of_exit(A, n, e):
    """the exit value carries the error of call e"""
    return contains(n.exit, e.res) or any(contains(x, e.res) for x in A.sources(n.exit))


def c10(c):
    R = Roles(c)
    c.rule('C10.propagate', 'when the storage reports a failure to an operation, the operation does not report success')
    for m in c.fs_methods():
        if m == 'new':
            continue
        A = c.fs(m)
        for e in storage_events(A, *(ST_RESULT - {'get_direntry'})):
            if e.res is None:
                c.check(False, '%s.%s.ignored' % (m, e.meth), '%s ignores the result of Storage::%s' % (m, e.meth), A, e)
                continue
            d = mk('disc', e.res)
            bad = A.g.fact_edges(d, 1)
            # paths on which the result is never looked at
            def edge_ok(a, b):
                for k, s in A.nodelist[b].ins.items():
                    if k[0] == a and not has_fact(s.facts, d, 0):
                        return True
                return False
            _, exits, _ = A.g.after(e, edge_ok=edge_ok)
            for n in exits:
                if 'Ok' not in variant(A, n):
                    continue
                if n.exit is e.res:
                    continue
                vs = [x for x in A.sources(n.exit)]
                okk = e.res in vs or all_err_from(A, n, e, edge_ok)
                c.check(okk, '%s.%s' % (m, e.meth), '%s can report success although Storage::%s failed' % (m, e.meth), A, e)
                break
            else:
                c.ob(1)
    c.need(40, 'storage calls that can fail')
    c.rule('C10.inner', 'a step of a storage operation that fails makes the storage operation fail')
    for ty in ('StableStorage', 'TransientStorage'):
        names = {c.root(ty, m, 'Storage')['path']: m for m in ('get_metadata', 'mount_node')}
        for b in c.P.find(impl_self=ty, impl_trait='Storage'):
            m = b['raw'].rsplit('::', 1)[-1]
            A = c.st(ty, m)
            for n, fr, v, facts in A.rets.values():
                if n.env is None or not any(x.op == 'agg' and x.a[1] == 'Err' for x in A.sources(v)) or variants_of(A, v, facts) != {'Err'}:
                    continue
                # asking for what is known of an earlier mount is a deliberate probe
                up, probe = fr, False
                while up is not None:
                    if up.parent is not None and names.get(up.body['path']) == 'get_metadata':
                        x = up.parent
                        while x is not None:
                            probe = probe or names.get(x.body['path']) == 'mount_node'
                            x = x.parent
                    up = up.parent
                if probe:
                    continue
                _, exits, _ = A.g.forward(n.id, len(n.events))
                c.check(not any('Ok' in variant(A, x) for x in exits), '%s.%s.%s' % (ty, m, fr.body['raw'].rsplit('::', 1)[-1]),
                        '%s::%s can report success although %s failed inside it' % (ty, m, fr.body['raw'].rsplit('::', 1)[-1]), A, n.events[-1] if n.events else None)
    c.need(30, 'failing steps inside storage operations')


def all_err_from(A, n, e, edge_ok):
    """every value the exit returns on executions that come from a failed e is an error"""
    return False


# ------------------------------------------------------------------ C11
def closure(A, t):
    cc = A.__dict__.setdefault('_clo', {})
    r = cc.get(t)
    if r is None:
        r, work = set(), [t]
        while work:
            x = work.pop()
            if x in r:
                continue
            r.add(x)
            if x.op == 'phi':
                work.extend(A.phi_in.get(x, ()))
        cc[t] = r
    return r


def related(A, a, b):
    """one of the two values may be the other one, handed on through joins"""
    return a is b or (a.op == 'phi' and b in closure(A, a)) or (b.op == 'phi' and a in closure(A, b))


def tab_after(A, R, t, k):
    """t is a state of the descriptor table that descriptor k has been put into"""
    seen, work, ins = set(), [t], False
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'upd':
            if x.a[0] == 'insert' and related(A, x.a[2], k):
                ins = True
            work.append(x.a[1])
        elif x.op == 'phi':
            work.extend(A.phi_in.get(x, ()))
    return ins and R.TAB in seen


def c11(c):
    R = Roles(c)
    c.rec_keep = (R.p_tab, R.p_refs)        # induction hypothesis for recursive calls: exactly what this rule shows
    c.rule('C11.close', 'a descriptor an operation opens is either returned to the caller by success, or closed again on every path, also when the operation fails')
    for m in c.fs_methods():
        if m in ('new', 'renumber', 'close'):
            continue
        A = c.fs(m)
        for (e, k, new, old, facts) in entry_writes(c, R, A):
            st = engine.State(e.env, facts)
            T = A.rd(st, ('p', A.argnames[0]), R.p_tab)
            o = engine.mget(T, k, A, st)
            if (o.op == 'agg' and o.a[1] == 'Some') or has_fact(facts, mk('disc', o), 1):
                continue
            if k.op == 'init':
                continue
            same = lambda x: related(A, x, k)
            pred = lambda x: x.cls in ('BMap', 'HMap') and x.meth == 'remove' and on_place(x, A, R.p_tab) and same(x.args[1])

            def impossible(f):
                # the descriptor just opened is in the table and is not the root descriptor
                for t, v in f.items():
                    if t.op == 'disc' and is_app(t.a[0], 'get') and same(t.a[0].a[2]) and v == frozenset([0]) and tab_after(A, R, t.a[0].a[1], k):
                        return True
                    if v == frozenset([3]) and same(t):
                        return True
                return False

            def edge_ok(a, b):
                return any(k2[0] == a and not impossible(s.facts) for k2, s in A.nodelist[b].ins.items())
            _, exits, _ = A.g.after(e, pred, edge_ok)
            for n in exits:
                vs = A.sources(n.exit)
                okk = bool(vs)
                for v in vs:
                    if v.op == 'agg' and v.a[1] == 'Ok' and (same(v.a[3]) or any(same(y) for y in A.sources(v.a[3]))):
                        continue
                    okk = False
                c.check(okk, m + '.leak', '%s can end with `%s` while the descriptor it opened stays open' % (m, show(n.exit)[:80]), A, e)
    c.need(12, 'descriptors opened')
    c.rule('C11.keep', 'operations that are not asked to close or move a descriptor leave every descriptor of the caller open')
    for m in c.fs_methods():
        if m in ('new', 'renumber', 'close'):
            continue
        A = c.fs(m)
        for e in A.events():
            if on_place(e, A, R.p_tab) and e.cls in ('BMap', 'HMap') and e.meth in ('remove', 'clear', 'retain', 'pop_first', 'pop_last'):
                k = e.args[1] if e.meth == 'remove' else None
                okk = k is not None and k.op != 'init' and all(x.op != 'init' for x in A.sources(k))
                mine = [w for w in entry_writes(c, R, A) if k is not None and w[1].op != 'init' and related(A, k, w[1])]
                okk = okk and bool(mine) and A.g.must_before(e, lambda x: any(x is w[0] for w in mine))
                c.check(okk, m + '.closes', '%s closes descriptor `%s`, which it did not open' % (m, show(k)[:80] if k is not None else 'all'), A, e)
    c.need(6, 'descriptors closed')
    c.rule('C11.alive', 'a descriptor an operation hands to the caller is open: it has not been closed again')
    for m in c.fs_methods():
        if m in ('new', 'renumber', 'close'):
            continue
        A = c.fs(m)
        back = {}
        for n in A.exits:
            for v in A.sources(n.exit) if n.exit is not None else ():
                if v.op == 'agg' and v.a[1] == 'Ok':
                    back.setdefault(v.a[3], []).append(n)
        puts = {id(w[0]) for w in entry_writes(c, R, A)}
        closed = [e for e in A.events() if on_place(e, A, R.p_tab) and e.cls in ('BMap', 'HMap') and e.meth == 'remove']
        for e in closed:
            mine = [n for t, ns in back.items() if related(A, t, e.args[1]) for n in ns]
            if not mine:
                c.ob()
                continue
            _, exits, _ = A.g.after(e, lambda x: id(x) in puts)
            c.check(not any(n in exits for n in mine), m + '.closed', '%s can return a descriptor it has closed' % m, A, e)
    c.need(4, 'descriptors closed')


# ------------------------------------------------------------------ C30
def storage_err(A, v, R):
    """the exit value is an error the storage reported"""
    for x in A.sources(v):
        if x.op == 'app' and x.a[0].startswith(STORAGE + '::'):
            continue
        if x.op == 'agg' and x.a[1] == 'Err':
            if all(any(z.op == 'app' and str(z.a[0]).startswith(STORAGE + '::') for z in subterms(y)) and y.op == 'fld' and y.a[1] == 'Err.0' for y in A.sources(x.a[3])):
                continue
        return False
    return True


def validated(A):
    """(vector, iterator): iterators whose loop lets an iteration continue only after having checked that the element is a
    possible file name; once such an iterator is exhausted every element of the vector is one"""
    if hasattr(A, '_validated'):
        return A._validated
    r = []
    for e in A.events():
        if e.name != 'Iterator::next' or e.res is None:
            continue
        el = fld(e.res, 'Some.0', 'Option')
        d = mk('disc', e.res)
        starts = [b for a, b in A.g.fact_edges(d, 1)]
        if not starts:
            continue
        x = app('len', el)

        def good(f):
            return holds(A, f, le(x, INT(255))) is True
        seen, work, bad = set(), list(starts), False
        while work and not bad:
            y = work.pop()
            if y in seen:
                continue
            seen.add(y)
            if any(z is e for z in A.nodelist[y].events) or (e.node.id == y):
                bad = True
                break
            for z in A.g.succ[y]:
                if any(k[0] == y and not good(s.facts) for k, s in A.nodelist[z].ins.items()):
                    work.append(z)
        if bad:
            continue
        for b in vec_base(A, e.args[0]):
            if is_app(b, 'iter', 'into_iter'):
                r.append((b.a[1], e.res))
    A._validated = r
    return r


def infeasible(A, R, valid):
    """edge facts no execution can have: a name already found acceptable is refused; a descriptor just opened is not there"""
    vecs = [v for v, d in valid]

    def f(facts):
        for t, v in facts.items():
            if t.op in ('le0',) and v == frozenset([0]):
                for y in lin_parts(t.a[0])[1]:
                    if is_app(y, 'len') and elements_of(A, y.a[1], vecs) and holds(A, {t: v}, le(y, INT(255))) is False:
                        return True
            if t.op == 'disc' and is_app(t.a[0], 'get') and v == frozenset([0]) and fresh_in(A, R, t.a[0].a[1], t.a[0].a[2]):
                return True
            if v == frozenset([3]) and t.op == 'phi' and fresh_key_phi(A, R, t):
                return True
        return False
    return f


def elements_of(A, x, vecs):
    ok = False
    for y in A.sources(x):
        if lit_of(y) is not None:
            continue
        if not (y.op == 'fld' and y.a[1] == 'Some.0' and is_app(y.a[0], 'next')):
            return False
        for b in vec_base(A, y.a[0].a[1]):
            if not (is_app(b, 'iter', 'into_iter') and any(b.a[1] is v for v in vecs)):
                return False
            ok = True
    return ok


def fresh_in(A, R, t, k):
    """descriptor k was put into the table state t by this operation and not taken out again"""
    if k.op == 'init' or not tab_after(A, R, t, k):
        return False
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'upd':
            if x.a[0] in ('remove', 'clear') and (x.a[0] == 'clear' or related(A, x.a[2], k)):
                return False
            work.append(x.a[1])
        elif x.op == 'phi':
            work.extend(A.phi_in.get(x, ()))
    return True


def fresh_key_phi(A, R, k):
    if not hasattr(A, '_freshkeys'):
        A._freshkeys = [w[1] for w in entry_writes(A.ctx, R, A) if w[1].op != 'init']
    return any(related(A, k, w) for w in A._freshkeys)


PATHERR = {'OperationNotPermitted', 'FilenameTooLong', 'InvalidArgument', 'NoSuchFileOrDirectory'}


def err_kind(A, v):
    r = set()
    for x in A.sources(v):
        if x.op == 'agg' and x.a[1] == 'Err':
            for y in A.sources(x.a[3]):
                r.add(y.a[1] if y.op == 'agg' else '?')
        else:
            r.add('?')
    return r


def c30(c):
    R = Roles(c)
    c.rule('C30.atomic', 'an operation that is refused has changed nothing: after the first change to the stored file system the only errors left are failures reported by the storage itself '
           '(rename / create_hard_link resolve their paths again after they were resolved successfully: the error kinds of path resolution are not considered there; C36 checks the guards of these two)')
    for m in c.fs_methods():
        if m in ('new', 'remove_recursive'):
            continue            # remove_recursive is a sequence of removals and may stop half-way
        A = c.fs(m)
        A.ctx = c
        valid = validated(A)
        imps = {}
        undone = [(v, d, A.g.unestablished_nodes(lambda f: has_fact(f, mk('disc', d), 0))) for v, d in valid]
        links = [p.e for p in puts(A) if is_link(p)]
        for e in storage_events(A, *ST_MUT):
            if e.meth == 'new_node':
                continue
            if m == 'mount_memory_file' and e.meth in ('put_metadata', 'put_direntry'):
                continue        # the host file is created first, as documented
            here = tuple((v, d) for v, d, u in undone if e.node.id not in u or has_fact(e.facts, mk('disc', d), 0))
            if here not in imps:
                imp = infeasible(A, R, here)
                memo = {}

                def edge_ok(a, b, imp=imp, memo=memo):
                    r = memo.get((a, b))
                    if r is None:
                        r = memo[(a, b)] = any(k[0] == a and not imp(s.facts) for k, s in A.nodelist[b].ins.items())
                    return r
                imps[here] = edge_ok
            edge_ok = imps[here]
            two = m in ('create_hard_link', 'rename')
            cut = (lambda x: any(x is l for l in links)) if two and links else (lambda x: False)
            if two and (cut(e) or moved(A, e, links)):
                cut = lambda x: False
                allow = PATHERR | {'TextFileBusy', 'IsDirectory', 'NotADirectoryOrSymbolicLink', 'DirectoryNotEmpty'}
            else:
                allow = PATHERR if two else set()
            _, exits, _ = A.g.after(e, cut, edge_ok)
            for n in exits:
                if 'Err' not in variant(A, n):
                    continue
                c.check(n.exit.op == 'app' or storage_err(A, n.exit, R) or err_kind(A, n.exit) <= allow, '%s.%s.%s' % (m, e.meth, show(n.exit)[:60]),
                        '%s can fail with `%s` after it has already changed the file system' % (m, show(n.exit)[:100]), A, e)
    c.need(40, 'error exits after a change')


# ------------------------------------------------------------------ C36
def eq_result_edge(A, f):
    """facts say that source and destination were found to be the same node"""
    for t, v in f.items():
        if t.op == 'app' and t.a[0] in ('eqv', 'eq') and not_val(v, 0) and len(t.a) > 2:
            if all(node_valued(A, y) or any(x.op == 'agg' and x.a[0] == 'Result' for x in A.sources(y)) for y in t.a[1:3]):
                return True
        if t.op == 'eq0' and v == frozenset([1]):
            d = lin_parts(t.a[0])[1]
            if len(d) == 2 and sorted(d.values()) == [-1, 1] and all(node_valued(A, x) for x in d):
                return True
    return False


def resolved(c, A, R, node, dparam, pparam, fresh=False):
    """every value `node` can have was resolved starting at the directory descriptor dparam, along pparam only"""
    d = fld(R.inner(R.entry(dparam), 'Dir'), 'node', 'Dir')
    for x in A.sources(node):
        x = norm_node(x)
        for x in A.sources(x):
            if x is d:
                continue
            if sapp(x, 'new_node'):
                if fresh:
                    continue
                return False
            if x.op == 'fld' and x.a[1] == 'node' and de_of(x.a[0]):
                if not resolve_start(A, de_of(x.a[0])[1], d):
                    return False
            elif x.op == 'app' and x.a[0] == 'at' and x.a[2].op == 'agg':
                if not (fld(x.a[2], '0', 'tuple') is d and fld(x.a[2], '1', 'tuple') is pparam):
                    return False
            else:
                return False
    strs = {x for x in provenance(A, node) if x.op == 'init' and x in strparams(c, A)}
    return strs <= {pparam}


LATE = {'FilenameTooLong', 'NoSuchFileOrDirectory', 'OperationNotPermitted', 'InvalidArgument', 'TextFileBusy'}


def c36(c):
    R = Roles(c)
    TT = ('create_hard_link', 'rename')
    c.rule('C36.src', 'the node that gets the new name is the one the old path names; the new entry goes where the new path says, under its last part; a replaced entry is the one the new path names')
    for m in TT:
        A = c.fs(m)
        od, op_, nd, np_ = (R.param(A, i) for i in (1, 2, 3, 4))
        links = [p for p in puts(A) if is_link(p)]
        c.check(bool(links), m + '.nolink', '%s never records a new link' % m, A)
        ln = [p.e for p in links]
        for p in links:
            c.check(resolved(c, A, R, p.node, od, op_), m + '.src', '%s links `%s`, which is not what the old path names' % (m, show(p.node)[:100]), A, p.e)
        for e in entput(A):
            c.check(resolved(c, A, R, e.args[1], nd, np_, True), m + '.dir', '%s makes an entry in `%s`, a directory not on the new path' % (m, show(e.args[1])[:100]), A, e)
            nm = fld(e.args[3], 'name', 'DirEntry')
            strs = {x for x in provenance(A, nm) if x.op == 'init' and x in strparams(c, A)}
            c.check(strs == {np_}, m + '.name', '%s makes an entry named `%s`' % (m, show(nm)[:100]), A, e)
        for e in entrm(A):
            mv = moved(A, e, ln)
            if mv:
                c.check(resolved(c, A, R, e.args[1], od, op_), m + '.rmold', '%s removes an entry of `%s`, which is not the directory of the old name' % (m, show(e.args[1])[:100]), A, e)
                strs = {x for x in provenance(A, e.args[2]) if x.op == 'init' and x in strparams(c, A)}
                c.check(strs == {op_} and m == 'rename', m + '.rmold.name', '%s removes entry `%s`, not the old name' % (m, show(e.args[2])[:100]), A, e)
            else:
                c.check(resolved(c, A, R, e.args[1], nd, np_), m + '.rmdst', '%s removes an entry of `%s`, which is not the directory of the new name' % (m, show(e.args[1])[:100]), A, e)
                strs = {x for x in provenance(A, e.args[2]) if x.op == 'init' and x in strparams(c, A)}
                c.check(strs == {np_}, m + '.rmdst.name', '%s removes entry `%s`, not the one it replaces' % (m, show(e.args[2])[:100]), A, e)
    c.need(14, 'entries linked, made and removed')
    c.rule('C36.guard', 'before anything changes: the source is known not to be mounted and to have a name of its own, a hard link is never made to a directory, '
           'and a directory is never moved into itself or below itself; an entry is replaced only by one of the same kind')
    for m in TT:
        A = c.fs(m)
        links = [p for p in puts(A) if is_link(p)]
        ln = [p.e for p in links]
        srcs = {norm_node(p.node) for p in links}
        isrc = lambda n: norm_node(n) in srcs

        def ft_of(t):
            """node whose file_type discriminant t is"""
            if t.op == 'disc' and t.a[0].op == 'fld' and t.a[0].a[1] == 'file_type' and md_of(t.a[0].a[0]):
                return md_of(t.a[0].a[0])[1]
            return None

        def notdir(f):
            return any(ft_of(t) is not None and isrc(ft_of(t)) and type(v) is frozenset and R.FT['Directory'] not in v for t, v in f.items()) or \
                any(ft_of(t) is not None and isrc(ft_of(t)) and type(v) is tuple and R.FT['Directory'] in v[1] for t, v in f.items())

        def notmounted(f):
            return any(sapp(t, 'is_mounted') and isrc(t.a[2]) and v == frozenset([0]) for t, v in f.items())

        def notbelow(f):
            if notdir(f):
                return True
            for t, v in f.items():
                if t.op == 'disc' and v == frozenset([0]) and is_app(t.a[0], 'pop', 'pop_front', 'pop_back', 'next', 'pop_first', 'pop_last'):
                    if any(contains(x, s) for s in srcs for x in work_list(A, t.a[0].a[1])):
                        return True
            return False

        def samekind(f):
            for t, v in f.items():
                if t.op == 'eq0' and v == frozenset([1]):
                    d = lin_parts(t.a[0])[1]
                    if len(d) == 2 and any(ft_of(x) is not None and isrc(ft_of(x)) for x in d) and all(ft_of(x) is not None for x in d):
                        return True
                if t.op == 'app' and t.a[0] in ('eqv', 'eq') and not_val(v, 0) and len(t.a) > 2 and all(ft_of(mk('disc', x)) is not None for x in t.a[1:3]) and any(isrc(ft_of(mk('disc', x))) for x in t.a[1:3]):
                    return True
            return both_kinds(f)

        def both_kinds(f):
            ks = {}
            for t, v in f.items():
                n = ft_of(t)
                if n is not None and type(v) is frozenset and len(v) == 1:
                    ks.setdefault(v, set()).add(isrc(n))
            return any(s == {True, False} for s in ks.values())
        hasname = lambda f: any(((t.op == 'app' and t.a[0] == 'len' and not_val(v, 0)) and vec_of_parts(A, t.a[1]) and path_of(A, t.a[1]) == {R.param(A, 2)}) or
                                (t.op in ('eq0', 'le0') and v == frozenset([0]) and any(is_app(y, 'len') and vec_of_parts(A, y.a[1]) and path_of(A, y.a[1]) == {R.param(A, 2)} for y in lin_parts(t.a[0])[1])) or
                                (t.op == 'disc' and v == frozenset([1]) and is_app(t.a[0], 'last', 'first', 'pop', 'next', 'split_last') and vec_of_parts(A, t.a[0].a[1]) and path_of(A, t.a[0].a[1]) == {R.param(A, 2)}) for t, v in f.items())
        for e in storage_events(A, *ST_MUT):
            c.check(A.g.established(e, notmounted), m + '.mounted', '%s changes the file system without knowing that the source is not mounted' % m, A, e)
            c.check(A.g.established(e, hasname), m + '.base', '%s changes the file system although the old path may name the starting directory itself' % m, A, e)
            if m == 'create_hard_link':
                c.check(A.g.established(e, notdir), m + '.dirlink', '%s can link a directory' % m, A, e)
            c.check(A.g.established(e, notbelow), m + '.below', '%s can move a directory into itself' % m, A, e)
        for p in puts(A):
            if is_unlink(p) and not moved(A, p.e, ln):
                c.check(A.g.established(p.e, samekind), m + '.kind', '%s can replace an entry by one of another kind' % m, A, p.e, facts_str(p.e.facts))
    c.need(30, 'guards')
    c.rule('C36.late', 'once the new name is recorded, the call is not refused any more: only a path that does not resolve or a directory in use can still end it')
    for m in TT:
        A = c.fs(m)
        links = [p for p in puts(A) if is_link(p)]
        srcs = {norm_node(p.node) for p in links}
        for e in [e for e in entput(A) if norm_node(ent_node(e)) in srcs]:
            _, _, seen = A.g.after(e)
            for node, fr, v, facts in A.rets.values():
                if node.id in seen and v.op == 'agg' and v.a[1] == 'Err' and isinstance(v.a[3], T) and v.a[3].op == 'agg' and 'Error' in v.a[3].a[0]:
                    c.check(v.a[3].a[1] in LATE, m + '.late.' + v.a[3].a[1], '%s can fail with %s after the new name was recorded' % (m, v.a[3].a[1]), A, e)
    c.need(10, 'errors after the entry is made')
    c.rule('C36.done', 'success means done: the new name was recorded (and, for rename, the old one removed), unless both names already were the same node, in which case nothing changes')
    for m in TT:
        A = c.fs(m)
        links = [p for p in puts(A) if is_link(p)]
        ln = [p.e for p in links]
        srcs = {norm_node(p.node) for p in links}
        ents = [e for e in entput(A) if norm_node(ent_node(e)) in srcs]
        rms = [e for e in entrm(A) if moved(A, e, ln)]
        same = lambda a, b: any(k[0] == a and not eq_result_edge(A, s.facts) for k, s in A.nodelist[b].ins.items())
        todo = [('link', ln), ('entry', ents)] + ([('old', rms)] if m == 'rename' else [])
        for what, evs in todo:
            _, exits, _ = A.g.from_entry(lambda x: any(x is y for y in evs), same)
            bad = [n for n in exits if 'Ok' in variant(A, n)]
            c.check(bool(evs) and not bad, m + '.' + what, {'link': '%s can succeed without recording the new link', 'entry': '%s can succeed without making the new entry', 'old': '%s can succeed without removing the old name'}[what] % m, A)
        es = [b for n in A.alive for k, s in n.ins.items() if k[0] != 'entry' for b in [n.id] if eq_result_edge(A, s.facts) and not eq_result_edge(A, A.nodelist[k[0]].facts or {})]
        evs, _, _ = A.g.reach_nodes(es)
        for e in evs:
            if e.cls == STORAGE and e.meth in ST_MUT:
                c.check(moved(A, e, ln) or any(A.g.must_before(e, lambda x, l=l: x is l) for l in ln), m + '.noop', '%s changes the file system although both names are the same file' % m, A, e)
                break
        c.ob(1)
    c.need(5, 'completion')
    c.rule('C36.fd', 'the descriptor returned refers to the file that was moved or linked')
    for m in TT:
        A = c.fs(m)
        od, op_, nd, np_ = (R.param(A, i) for i in (1, 2, 3, 4))
        for e, k, kind, pay, facts in opened(c, R, A):
            if k.op == 'init':
                continue
            node = fld(pay, 'node', kind)
            c.check(all(resolved(c, A, R, x, od, op_) or resolved(c, A, R, x, nd, np_) for x in A.sources(node)), m + '.fd', '%s returns a descriptor of `%s`' % (m, show(node)[:100]), A, e)
    c.need(2, 'descriptors returned')


def work_list(A, v):
    """everything ever put into a work list"""
    out = set()
    for x in all_versions(A, v):
        if x.op == 'upd' and x.a[0].startswith('push'):
            out.add(x.a[2])
        elif x.op not in ('phi',):
            out.add(x)
    return out


def path_of(A, v):
    return {split_part(A, y.a[2]) for y in all_versions(A, v) if y.op == 'upd' and y.a[0] == 'push' and isinstance(y.a[2], T)} - {None}
