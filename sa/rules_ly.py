"""What is stored where, and what opening a storage does."""
from core import *
from roles import *
from rules_fs import *
from rules_io import *
from rules_st import *
from terms import *
import engine

COLL = ('SMap', 'StableCell')
FSA1, ALO1 = (70, 83, 65, 49), (65, 76, 79, 49)
# memory (relative to the first of the range) each part of the storage lives in, since the first version that had the part
PLACES = (('header', 0), ('metadata', 1), ('directory entries', 2), ('chunks of the first version', 3), ('metadata of mounted files', 4),
          ('chunk addresses', 5), ('chunk allocator', 6), ('chunk contents', 7), ('entry lookup', 9))
JOURNAL = 8
CHUNK_SIZE, MAX_PTR = 8, 24


def at_path(t, path):
    for _, f, s in path:
        t = fld(t, f, s)
    return t


def mem_id(t):
    """the memory a map, cell or memory state lives in: (manager, number of the memory)"""
    for x in subterms(t):
        if x.op == 'app' and x.a[0] == 'MemoryManager::get' and x.a[2].op == 'app' and x.a[2].a[0] == 'MemoryId::new':
            return x.a[1], x.a[2].a[1]
    return None


class Ctor:
    """a constructor of the stable storage and the memories it uses"""
    def __init__(self, c, R, S, name):
        self.c, self.S, self.name = c, S, name
        self.A = c.an('StableStorage', name, '')
        A = self.A
        self.exits = [n for n in A.exits if n.exit is not None]
        self.base = self.mgr = None
        b = set()
        for n in self.exits:
            for x in states(A, at_path(n.exit, S.header)):
                r = mem_id(x)
                if r:
                    b.add(r)
        if not self.exits:
            raise Anchor('%s never returns' % name)
        if len(b) == 1:
            self.mgr, self.base = b.pop()

    def off(self, t):
        """offset of the memory of t from the header's memory"""
        r = mem_id(t)
        if r is None or r[0] is not self.mgr:
            return None
        d = sub(r[1], self.base)
        return d.a[0] if d.op == 'int' else None

    def mem_of(self, e):
        """offset of the memory the event works on"""
        A = self.A
        st = engine.State(dict(e.env), dict(e.facts))
        v = A.val(st, e.recv) if e.recv is not None else e.args[0]
        r = {self.off(x) for x in states(A, v)}
        return r.pop() if len(r) == 1 else None

    def places(self, n):
        S = self.S
        real = real_meta(self.c, S)
        ps = [('header', S.header), ('metadata', S.meta[real]), ('directory entries', S.dir), ('chunks of the first version', S.v1), ('metadata of mounted files', S.meta[1 - real]),
              ('chunk addresses', S.ptr), ('chunk allocator', S.alloc), ('chunk contents', S.mem), ('entry lookup', S.look)]
        for what, p in ps:
            yield what, states(self.A, at_path(n.exit, p))


def real_meta(c, S):
    """index of the metadata map that is used while the file is not mounted"""
    r = {}
    A = S.an('get_metadata')
    for i, p in enumerate(S.meta):
        for e in S.map_ev(A, p):
            r.setdefault(S.status(A, e, e.args[1]), set()).add(i)
    if len(r.get(False, ())) != 1:
        raise Anchor('metadata of files that are not mounted not recognised')
    return next(iter(r[False]))


def ctors(c, R, S):
    r = []
    for x in c.P.find(impl_self='StableStorage', impl_trait=''):
        if x['pub'] and x['raw'].rsplit('::', 1)[-1].startswith('new'):
            r.append(Ctor(c, R, S, x['raw'].rsplit('::', 1)[-1]))
    if len(r) < 2:
        raise Anchor('constructors of StableStorage not found')
    return r


# ------------------------------------------------------------------ C23
def c23(c):
    R = Roles(c)
    S = St(c, R, 'StableStorage')
    c.rule('C23.place', 'every part of the storage lives in the memory of its own number, counted from the start of the range given')
    for K in ctors(c, R, S):
        A = K.A
        for n in K.exits:
            c.check(K.base is not None, K.name + '.base', '%s: the memory of the header is not one of the range' % K.name, A)
            if K.base is None:
                continue
            for what, ss in K.places(n):
                want = dict(PLACES)[what]
                got = {K.off(x) for x in ss}
                c.check(got == {want}, K.name + '.' + what.replace(' ', '_'), '%s puts the %s in memory %s of the range, it has always been memory %d' % (K.name, what, '/'.join(str(g) for g in got), want), A)
    c.need(18, 'parts of the storage')
    c.rule('C23.used', 'no other memory of the range is touched, except the old journal; no memory is used for two things')
    for K in ctors(c, R, S):
        A = K.A
        known = {o for _, o in PLACES} | {JOURNAL}
        for e in A.events():
            if e.cls == 'MemoryManager' and e.meth == 'get':
                o = K.off(e.res) if e.res is not None else None
                c.check(o in known, K.name + '.mem', '%s takes memory `%s`, which is not one of the %d memories of the storage' % (K.name, show(e.args[1])[:80], len(known)), A, e)
            elif e.cls in COLL and e.meth in ('init', 'load', 'new'):
                o = {K.off(x) for x in states(A, e.args[0])}
                n = [x for x in A.events() if x.cls in COLL and x.meth in ('init', 'load', 'new') and x is not e and {K.off(y) for y in states(A, x.args[0])} == o
                     and any(z is x for z in A.g.after(e)[0])]
                c.check(not n and not (o & {6, 7, JOURNAL}), K.name + '.twice', '%s keeps two things in one memory' % K.name, A, e)
    c.need(20, 'memories taken')
    c.rule('C23.range', 'memories are taken from the range given only after it is known to hold enough of them and to end within the memories that exist')
    A = None
    for K in ctors(c, R, S):
        A = K.A
        if K.base is None:
            continue
        if K.base.op == 'int':
            c.check(K.base.a[0] == 229, K.name + '.default', 'the default memories start at %s instead of 229: a storage made before is not found again' % show(K.base), A)
            continue
        rng = [p for p in A.argnames if contains(K.base, mk('init', p))]
        c.check(len(rng) == 1, K.name + '.range', '%s: memories not taken from the range' % K.name, A)
        if len(rng) != 1:
            continue
        rg = mk('init', rng[0])
        st, en = fld(rg, 'start', 'Range'), fld(rg, 'end', 'Range')
        c.check(K.base is st, K.name + '.start', '%s: the first memory is `%s` instead of the first of the range' % (K.name, show(K.base)), A)
        for e in A.events():
            if e.cls == 'MemoryManager' and e.meth == 'get':
                big = lambda f: holds(A, f, le(INT(10), sub(en, st))) is True
                low = lambda f: holds(A, f, le(en, INT(254))) is True
                c.check(A.g.established(e, big), K.name + '.count', '%s takes memories of a range that may be too short' % K.name, A, e, facts_str(e.facts))
                c.check(A.g.established(e, low), K.name + '.end', '%s takes memories of a range that may end beyond the last one' % K.name, A, e, facts_str(e.facts))
    c.need(12, 'memories taken')


# ------------------------------------------------------------------ C22
def c22(c):
    R = Roles(c)
    S = St(c, R, 'StableStorage')
    KS = ctors(c, R, S)
    c.rule('C22.init', 'maps and cells found in the memories are loaded, never made anew')
    for K in KS:
        A = K.A
        for e in A.events():
            if e.cls in COLL and e.meth in ('init', 'load', 'new', 'init_v1', 'load_v1', 'new_v1', 'init_with_value'):
                c.check(e.meth in ('init', 'load'), K.name + '.new', '%s makes an empty %s in a memory that can hold data' % (K.name, e.cls), A, e)
            elif e.cls == 'MemoryManager' and e.meth != 'get':
                c.check(e.meth == 'init', K.name + '.mgr', '%s does not load the memory manager' % K.name, A, e)
        for n in K.exits:
            for what, p in (('header', S.header), ('metadata', S.meta[0]), ('metadata', S.meta[1]), ('directory entries', S.dir), ('chunks of the first version', S.v1),
                            ('chunk addresses', S.ptr), ('entry lookup', S.look)):
                for x in states(A, at_path(n.exit, p)):
                    c.check(is_app(x, 'SMap::init', 'StableCell::init', 'SMap::load', 'StableCell::load'), '%s.made.%s' % (K.name, what.replace(' ', '_')),
                            '%s does not load the %s found in the memory (`%s`)' % (K.name, what, show(x)[:80]), A)
    c.need(24, 'maps and cells')
    c.rule('C22.keep', 'opening changes stored data only to set up an empty allocator, to renew its marker, to record the chunk size while nothing is allocated, or to take over the size of a '
           'mounted file from the old journal')
    for K in KS:
        A = K.A
        for e in A.events():
            if e.cls in COLL and e.meth in ('insert', 'remove', 'clear_new', 'clear', 'set', 'pop_first', 'pop_last', 'replace'):
                if e.recv is None and not e.args:
                    continue
                o = K.mem_of(e)
                ok = e.meth == 'insert' and o in (4, 5) and adopting(K, e.facts)
                if ok and o == 4:
                    ok = e.args[1] is journal_node(K, e.facts)
                if ok and o == 5:
                    k = S.key_of(e)
                    ok = k[0] is journal_node(K, e.facts) and S.metakey(k[1])
                c.check(ok, '%s.%s.%s' % (K.name, e.meth, o), '%s changes stored data when it opens a storage (%s in memory %s)' % (K.name, e.meth, o), A, e, facts_str(e.facts))
            elif e.cls in ('Memory', 'VMem') and e.meth == 'write':
                o = K.mem_of(e)
                c.check(K_write(c, K, e, o), '%s.write.%s' % (K.name, o), '%s overwrites stored data when it opens a storage (memory %s, address %s)' % (K.name, o, show(e.args[1])[:60]), A, e, facts_str(e.facts))
    c.need(26, 'changes at opening')
    c.rule('C22.journal', 'the old journal is taken over at most once: taking it over is always followed by marking it as empty, and it is marked only then; the metadata taken over is what it holds')
    for K in KS:
        A = K.A
        puts = [e for e in A.events() if e.cls in COLL and e.meth == 'insert' and K.mem_of(e) == 5 and adopting(K, e.facts)]
        chunk = [e for e in A.events() if e.cls in ('Memory', 'VMem') and e.meth == 'write' and K.mem_of(e) == 7 and adopting(K, e.facts)]
        marks = [e for e in A.events() if e.cls in ('Memory', 'VMem') and e.meth == 'write' and K.mem_of(e) == JOURNAL]
        vals = [e for e in chunk if not all(is_zeros(v) for v in A.sources(e.args[2]))]
        c.check(bool(marks) and bool(vals), K.name + '.adopt', '%s does not take over the old journal' % K.name, A)
        for e in puts + chunk:
            c.check(not A.g.must_after(e, lambda x: any(x is y for y in marks)), K.name + '.mark', '%s takes over the old journal without marking it as empty: it would be taken over again' % K.name, A, e)
        for e in marks:
            c.check(A.g.must_before(e, lambda x: any(x is y for y in vals)), K.name + '.lost', '%s marks the old journal as empty before what it holds is stored' % K.name, A, e)
        for e in vals:
            for v in A.sources(e.args[2]):
                for f in ('node', 'size', 'link_count', 'times', 'chunk_type'):
                    x = fld(v, f, 'Metadata')
                    ok = x.op == 'fld' and x.a[1] == f and is_app(x.a[0], 'mread') and {K.off(y) for y in states(A, x.a[0].a[1])} == {JOURNAL} and x.a[0].a[2] is INT(24)
                    c.check(ok or (f == 'node' and x is journal_node(K, e.facts)), K.name + '.' + f, '%s takes over `%s` as %s of the mounted file' % (K.name, show(x)[:80], f), A, e)
                x = fld(v, 'file_type', 'Metadata')
                c.check(x.op == 'agg' and x.a[1] == 'RegularFile', K.name + '.type', '%s takes over the mounted file as `%s`' % (K.name, show(x)[:80]), A, e)
    c.need(20, 'steps of taking over')
    c.rule('C22.version', 'a storage is opened only if it has the version this code understands, and an allocator only with one of the known markers')
    for K in KS:
        A = K.A
        for n in K.exits:
            hd = states(A, at_path(n.exit, S.header))
            ver = lambda f: any(t.op == 'fld' and t.a[1] == 'version' and v == frozenset([1]) and any(contains(t, h) for h in hd) for t, v in f.items())
            c.check(A.g.established_at_exit(n, ver), K.name + '.version', '%s opens a storage of an unknown version' % K.name, A, None, facts_str(n.outfacts))
            mark = lambda f: fresh_alloc(K, f) or marker(K, f) is not None
            c.check(A.g.established_at_exit(n, mark), K.name + '.marker', '%s opens an allocator with an unknown marker' % K.name, A)
            d = [x for x in hd if is_app(x, 'StableCell::init')]
            c.check(len(d) == 1 and fld(d[0].a[2], 'version', 'Header') is ONE, K.name + '.newversion', '%s gives a new storage another version than it opens' % K.name, A)
        # an empty allocator gets the marker it is opened with later
        ws = [e for e in A.events() if e.cls in ('Memory', 'VMem') and e.meth == 'write' and K.mem_of(e) == 6 and e.args[1] is ZERO]
        heads = [n.id for n in A.alive for k, s in n.ins.items() if k[0] != 'entry' and fresh_alloc(K, s.facts) and not fresh_alloc(K, A.nodelist[k[0]].facts or {})]
        _, ex, _ = A.g.reach_nodes(heads, lambda x: any(x is y for y in ws))
        c.check(bool(heads) and not ex, K.name + '.fresh', '%s sets up a new allocator without a marker' % K.name, A)
    c.need(8, 'exits of the constructors')
    c.rule('C22.fs', 'making a file system of a storage changes nothing in it')
    A = c.fs('new')
    for e in storage_events(A):
        c.check(e.meth not in ST_MUT, 'fs.' + e.meth, 'FileSystem::new changes the storage (%s)' % e.meth, A, e)
    c.need(3, 'uses of the storage')


def jread(K, t, addr):
    return is_app(t, 'mread') and t.a[2] is INT(addr) and {K.off(y) for y in states(K.A, t.a[1])} == {JOURNAL}


def journal_node(K, f):
    for t in f:
        for x in subterms(t):
            if jread(K, x, 16):
                return x
    return None


def adopting(K, f):
    """facts: the old journal holds metadata of a mounted file"""
    n = journal_node(K, f)
    if n is None:
        return False
    some = f.get(n)
    some = type(some) is tuple and 2 ** 64 - 1 in some[1]
    same = any(t.op == 'eq0' and v == frozenset([1]) and len(lin_parts(t.a[0])[1]) == 2 and n in lin_parts(t.a[0])[1] and any(
        x.op == 'fld' and x.a[1] == 'node' and jread(K, x.a[0], 24) for x in lin_parts(t.a[0])[1]) for t, v in f.items())
    old = any(is_app(t, 'msize') and K.off(t.a[1]) == JOURNAL and not_val(v, 0) for t, v in f.items())
    return some and same and old


def fresh_alloc(K, f):
    return any(is_app(t, 'msize') and t.a[1].op == 'app' and K.off(t.a[1]) == 6 and v == frozenset([0]) for t, v in f.items())


def marker(K, f):
    """the known marker the allocator is known to have"""
    by = {}
    for t, v in f.items():
        if is_app(t, 'idx') and is_app(t.a[1], 'mread') and t.a[1].a[2] is ZERO and K.off(t.a[1].a[1]) == 6 and t.a[2].op == 'int' and type(v) is frozenset and len(v) == 1:
            by[t.a[2].a[0]], = v
    for k in (FSA1, ALO1):
        if all(by.get(i) == x for i, x in enumerate(k)):
            return k
    for t, v in f.items():
        if is_app(t, 'eqv', 'eq') and not_val(v, 0):
            xs = list(t.a[1:3])
            for a, b in (xs, xs[::-1]):
                if is_app(a, 'mread') and a.a[2] is ZERO and K.off(a.a[1]) == 6 and bytes_of(b)[:4] in (FSA1, ALO1):
                    return bytes_of(b)[:4]
    return None


def as_int(z):
    return z.a[0] if isinstance(z, T) and z.op == 'int' else z


def K_write(c, K, e, o):
    A, S, f = K.A, K.S, e.facts
    addr = e.args[1]
    if o == 6:
        if fresh_alloc(K, f):
            if addr is ZERO:
                return all(bytes_of(v)[:4] == FSA1 for v in A.sources(e.args[2]))
            return True
        if addr is ZERO:
            return marker(K, f) == ALO1 and all(bytes_of(v)[:4] == FSA1 for v in A.sources(e.args[2]))
        if addr is INT(CHUNK_SIZE):
            return unused_alloc(A, f)
        return adopting(K, f)
    if o == 7:
        return adopting(K, f)
    if o == JOURNAL:
        return adopting(K, f) and addr is INT(16) and all(v.op == 'int' and v.a[0] in (2 ** 64 - 1, -1) for v in A.sources(e.args[2]))
    return False


def bytes_of(v):
    if v.op == 'agg' and v.a[0] == 'array':
        return tuple(as_int(x) for x in v.a[3:])
    if v.op in ('bytes', 'str'):
        return tuple(v.a[0]) if v.op == 'bytes' else tuple(v.a[0].encode())
    return ()


def unused_alloc(A, f):
    """facts: no chunk was ever handed out"""
    return any(is_app(t, 'mread') and t.a[2] is INT(MAX_PTR) and v == frozenset([0]) for t, v in f.items()) or \
        any(t.op == 'eq0' and v == frozenset([1]) and is_app(t.a[0], 'mread') and t.a[0].a[2] is INT(MAX_PTR) for t, v in f.items())


# ------------------------------------------------------------------ C27
def c27(c):
    R = Roles(c)
    S = St(c, R, 'StableStorage')
    if S.csize is None:
        raise Anchor('chunk size field not recognised')
    c.rule('C27.change', 'the recorded chunk size is changed only to one of the supported sizes and only while no chunk was ever handed out')
    roots = [(m, S.an(m)) for m in S.methods()] + [(K.name, K.A) for K in ctors(c, R, S)]
    KS = {K.name: K for K in ctors(c, R, S)}
    sizes = sorted(int(v['discr']) for v in R.enums['ChunkSize'][1]['variants'])
    for m, A in roots:
        for e in size_writes(S, A, KS.get(m)):
            if m in KS and fresh_alloc(KS[m], e.facts):
                c.check(all(as_zero(v) for v in A.sources(e.args[2])), m + '.fresh', '%s sets up a new allocator with a chunk size that was not checked' % m, A, e)
                continue
            cur = cur_size(A, e)
            for v in A.sources(e.args[2]):
                same_ = cur is not None and holds(A, e.facts, eq(v, cur)) is True
                c.check(same_ or unused_alloc(A, e.facts) or A.g.established(e, lambda f: unused_alloc(A, f)), m + '.used', '%s changes the chunk size although chunks may be in use' % m, A, e, facts_str(e.facts))
            c.check(A.g.established(e, lambda f: supported(A, f, e.args[2], sizes)), m + '.supported', '%s records a chunk size that may not be supported' % m, A, e, facts_str(e.facts))
    c.need(6, 'changes of the recorded chunk size')
    c.rule('C27.agree', 'the chunk size in use is the one recorded: they change together, and a storage is opened with the recorded one')
    for m in S.methods():
        A = S.an(m)
        for n in A.exits:
            fin = A.rd(engine.State(n.edgefacts, n.outfacts), ('p', A.argnames[0]), S.csize)
            if fin is S.term(S.csize):
                # unchanged: nothing may have been recorded on the way
                c.ob()
                if n.exit is not None and m == 'set_chunk_size' and 'Ok' in variant(A, n):
                    c.viol(m + '.ignored', '%s reports success without using the new chunk size' % m, A)
                continue
            st = [e for e in A.events() if e.cls == 'store' and e.recv is not None and on_place(e, A, S.csize)]
            c.check(bool(st), m + '.kept', '%s changes the chunk size in use' % m, A)
            for e in st:
                agree(c, S, A, m, e, e.args[0], None)
        ws = list(size_writes(S, A, None))
        for e in ws:
            bad = A.g.must_after(e, lambda x: x.cls == 'store' and x.recv is not None and on_place(x, A, S.csize))
            pre = A.g.must_before(e, lambda x: x.cls == 'store' and x.recv is not None and on_place(x, A, S.csize))
            c.check(not bad or pre, m + '.stale', '%s records another chunk size than the one in use' % m, A, e)
    for K in KS.values():
        A = K.A
        for n in K.exits:
            v = at_path(n.exit, S.csize)
            ws = list(size_writes(S, A, K))
            ok = lambda f: same_as_stored(K, A, f, v)
            # either known to equal what is recorded, or recorded just now
            wr = [e for e in ws if not fresh_alloc(K, e.facts) and (e.args[2] is v or set(A.sources(e.args[2])) == set(A.sources(v)))]
            _, ex, _ = A.g.from_entry(lambda x: any(x is w for w in wr), lambda a, b: any(not ok(s.facts) for k, s in A.nodelist[b].ins.items() if k[0] == a))
            c.check(not any(x is n for x in ex), K.name + '.stored', '%s works with chunk size `%s`, which may differ from the recorded one' % (K.name, show(v)[:80]), A)
            for x in A.sources(v):
                c.check(x.op == 'int' and x.a[0] in sizes or (is_app(x, 'mread') and x.a[2] is INT(CHUNK_SIZE)), K.name + '.source', '%s takes the chunk size from `%s`' % (K.name, show(x)[:80]), A)
    c.need(20, 'exits')
    c.rule('C27.err', 'a refused change of the chunk size changes nothing')
    A = S.an('set_chunk_size')
    ws = list(size_writes(S, A, None))
    for n in A.exits:
        if 'Err' in variant(A, n):
            fin = A.rd(engine.State(n.edgefacts, n.outfacts), ('p', A.argnames[0]), S.csize)
            c.check(fin is S.term(S.csize), 'err', 'a refused change of the chunk size takes effect', A)
            for e in ws:
                c.check(not any(x is n for x in A.g.after(e)[1] if 'Ok' not in variant(A, x)), 'err.write', 'a refused change of the chunk size is recorded', A, e)
        if 'Ok' in variant(A, n):
            fin = A.rd(engine.State(n.edgefacts, n.outfacts), ('p', A.argnames[0]), S.csize)
            arg = mk('init', A.argnames[1])
            for x in A.sources(fin):
                c.check(contains(x, arg), 'ok', 'set_chunk_size uses chunk size `%s` instead of the one asked for' % show(x)[:80], A)
    c.need(3, 'exits of set_chunk_size')


def as_zero(v):
    return v is ZERO or is_app(v, 'to_le_bytes') and v.a[1] is ZERO or v.op == 'agg' and v.a[0] == 'array' and all(x is ZERO for x in v.a[3:])


def size_writes(S, A, K):
    """writes of the chunk size record of the allocator"""
    for e in A.events():
        if e.cls in ('Memory', 'VMem') and e.meth == 'write' and e.args[1] is INT(CHUNK_SIZE):
            if K is None and S.at(e, A, S.alloc) or K is not None and K.mem_of(e) == 6:
                yield e


def cur_size(A, e):
    """the chunk size recorded when e happens, as the path read it"""
    for t in e.facts:
        for x in subterms(t):
            if is_app(x, 'mread') and x.a[2] is INT(CHUNK_SIZE):
                return x
    return None


def supported(A, f, v, sizes, depth=0):
    """facts: the value was found in the table of supported sizes (or compared with each)"""
    table = lambda y: y.op == 'agg' and y.a[0] == 'array' and len(y.a) - 3 == len(sizes)
    for t, w in f.items():
        if t.op == 'app' and str(t.a[0]).endswith(('any', 'contains')) and not_val(w, 0):
            if any(table(x) for x in subterms(t)) and any(contains(t, y) for y in {v} | set(A.sources(v)) | {y for y in subterms(v)}):
                return True
        if t.op == 'eq0' and w == frozenset([1]):
            k, d = lin_parts(t.a[0])
            if v in d and (len(d) == 1 and abs(k) in sizes or len(d) == 2 and k == 0 and any(x is not v and any(table(y) for y in subterms(x)) for x in d)):
                return True
        if type(w) is frozenset and w and t is v and w <= set(sizes):
            return True
        # a flag that was set only after such a comparison
        if depth < 3 and t.op == 'phi' and t in A.phi_in and w == frozenset([1]):
            ls = leaves(A, t, f, lambda new, old: new is old)
            if ls and all(x is not None and (x is ZERO or supported(A, f2 if x is ONE else dict(f2, **{}) | {x: frozenset([1])}, v, sizes, depth + 1)) for x, f2 in ls):
                return True
    vs = A.sources(v)
    if all(x.op == 'int' and x.a[0] in sizes for x in vs):
        return True
    # the discriminant of the type of supported sizes itself
    return all(x.op == 'disc' or x.op == 'app' and str(x.a[0]).startswith('cast_') and x.a[1].op == 'disc' for x in vs)


def same_as_stored(K, A, f, v):
    for t, w in f.items():
        if t.op == 'eq0' and w == frozenset([1]):
            d = lin_parts(t.a[0])[1]
            if v in d and len(d) == 2 and any(is_app(x, 'mread') and x.a[2] is INT(CHUNK_SIZE) for x in d):
                return True
    return False


def agree(c, S, A, m, e, v, K):
    """the chunk size put in use by the store e is recorded"""
    ws = list(size_writes(S, A, K))
    rec = [w for w in ws if w.args[2] is v or set(A.sources(w.args[2])) == set(A.sources(v))]
    ok = lambda f: any(t.op == 'eq0' and w == frozenset([1]) and any(is_app(x, 'mread') and x.a[2] is INT(CHUNK_SIZE) for x in lin_parts(t.a[0])[1]) and v in lin_parts(t.a[0])[1] for t, w in f.items())
    known = lambda a, b: any(not ok(s.facts) for k, s in A.nodelist[b].ins.items() if k[0] == a)
    okk = A.g.established(e, ok) or A.g.must_before(e, lambda x: any(x is w for w in rec), known) or (rec and not A.g.must_after(e, lambda x: any(x is w for w in rec)))
    c.check(okk, m + '.unrecorded', '%s uses a chunk size that is not the recorded one' % m, A, e, facts_str(e.facts))


def kept(c, R, rule):
    c.rule(rule, 'the storage changes nothing in the metadata of an existing file but its size (and, when it is mounted again, the link count)')
    for ty in BACK:
        T_ = St(c, R, ty)
        for m in T_.methods():
            A = T_.an(m)
            may = {'size'} | ({'link_count'} if m in ('mount_node', 'init_mounted_memory', 'store_mounted_memory') else set())
            for e in md_puts(T_, A):
                for v in A.sources(e.args[2]):
                    if m == 'put_metadata':
                        c.check(v is mk('init', A.argnames[2]), '%s.%s.other' % (ty, m), '%s of %s stores `%s` instead of the metadata given' % (m, ty, show(v)[:100]), A, e)
                        continue
                    for ks, base in changed(A, v):
                        if base.op == 'agg':
                            # the metadata of the root directory of a storage that has none yet, kept in the cache only
                            c.check(m == 'get_metadata' or default_md(base, 'file_type'), '%s.%s.agg' % (ty, m), '%s of %s makes up metadata' % (m, ty), A, e)
                            continue
                        c.check(ks <= may, '%s.%s.%s' % (ty, m, '/'.join(sorted(ks - may))), '%s of %s changes %s of an existing file' % (m, ty, ', '.join(sorted(ks - may))), A, e)
                        c.check(is_md_read(A, T_, base) or base is mk('init', A.argnames[-1]), '%s.%s.base' % (ty, m), '%s of %s stores `%s`, which is not metadata it has read' % (m, ty, show(base)[:100]), A, e)
    c.need(40, 'metadata stored')


# ------------------------------------------------------------------ C37
def c37(c):
    R = Roles(c)
    S = St(c, R, 'StableStorage')
    W = {v['name']: int(v['discr']) for v in R.enums['ChunkType'][1]['variants']}
    ctf = S.one(lambda k, s: s.endswith('ChunkType') and 'Option' not in s)
    CT = S.term(ctf)

    def direct(f):
        """what the facts tell about the format of the file's content"""
        out = set()
        for t, v in f.items():
            if t.op == 'disc' and t.a[0].op == 'fld' and t.a[0].a[1] == 'chunk_type':
                md = t.a[0].a[0]
                if v == frozenset([1]):
                    k = f.get(mk('disc', fld(t.a[0], 'Some.0', 'Option')))
                    k = k if type(k) is frozenset else frozenset(W.values()) - k[1] if type(k) is tuple else None
                    if k == frozenset([W['V1']]):
                        out.add('V1')
                    elif k == frozenset([W['V2']]):
                        out.add('V2')
                elif v == frozenset([0]):
                    size = fld(md, 'size', 'Metadata')
                    empty = f.get(size) == frozenset([0]) or holds(S_A[0], f, eq(size, ZERO)) is True
                    some = type(f.get(size)) is tuple and 0 in f[size][1] or holds(S_A[0], f, lt(ZERO, size)) is True
                    if empty:
                        k = now_type(f)
                        if k:
                            out.add(k)
                    elif some:
                        k = any_v2(f)
                        if k is not None:
                            out.add('V2' if k else 'V1')
        return out
    S_A = [None]

    def now_type(f):
        for t, v in f.items():
            if t is mk('disc', CT):
                k = v if type(v) is frozenset else frozenset(W.values()) - v[1]
                if len(k) == 1:
                    return 'V1' if k == frozenset([W['V1']]) else 'V2'
            if t.op == 'eq0' and v in (frozenset([0]), frozenset([1])):
                k, d = lin_parts(t.a[0])
                if len(d) == 1 and mk('disc', CT) in d and abs(d[mk('disc', CT)]) == 1:
                    n = abs(k)
                    if v == frozenset([0]):
                        n = next(iter(set(W.values()) - {n}))
                    return {w: x for x, w in W.items()}.get(n)
        return None

    def any_v2(f):
        for t, v in f.items():
            x, val = None, None
            if t.op == 'disc':
                x, val = t.a[0], True if v == frozenset([1]) else False if v == frozenset([0]) else None
            elif t.op == 'eq0' and v in (frozenset([0]), frozenset([1])):
                k, d = lin_parts(t.a[0])
                if len(d) == 1:
                    (y, n), = d.items()
                    if y.op == 'disc':
                        x, val = y.a[0], (v == frozenset([1])) == (abs(k) == 1)
            if x is None or val is None or not is_app(x, 'next'):
                continue
            for r in iter_srcs(S_A[0], x.a[1]):
                if is_app(r, 'iter_range', 'iter_keys_range', 'iter_values_range') and started(S_A[0], r.a[1], S.term(S.ptr)) and full(S, S_A[0], r):
                    return val
        return None

    def decided(f, depth=0):
        d = direct(f)
        if d:
            return d
        for t, v in f.items():
            ph = t.a[0] if t.op == 'disc' else t
            if ph.op == 'phi' and type(v) is frozenset and len(v) == 1 and ph in S_A[0].phi_in:
                r = set()
                for x, f2, ch in leaf_paths(S_A[0], ph, f):
                    d = set()
                    if x is not None:
                        # the selected value, in what was known where it was selected
                        y = mk('disc', x) if t.op == 'disc' else x
                        if x.op == 'agg' and t.op == 'disc':
                            k = S_A[0].enum_discr(x.a[0], x.a[1])
                            y = y if k is None else INT(k)
                        if y.op == 'int' and y.a[0] not in v:
                            continue
                        for g in [f2] + [s.facts for _, s in ch]:
                            d = d or direct({**g, y: v} if y.op != 'int' else g)
                    if len(d) != 1:
                        r = None
                        break
                    r |= d
                if r and len(r) == 1:
                    return r
        return set()
    c.rule('C37.access', 'content is read and written in the format the file\'s metadata says; if it says nothing, in the format of the chunks the file has, or, while it is empty, in the format set for new files')
    for m in ('read', 'write'):
        A = S.an(m)
        S_A[0] = A
        cache = {}

        def is_kind(k):
            def p(f):
                x = cache.get(id(f))
                if x is None or x[0] is not f:
                    x = cache[id(f)] = (f, decided(f))
                return x[1] == {k}
            return p
        evs = [('V1', e) for e in S.map_ev(A, S.v1)] + \
              [('V2', e) for e in S.map_ev(A, S.ptr, 'insert', 'remove', 'get', 'contains_key') if S.key_of(e) and not S.metakey(S.key_of(e)[1])] + \
              [('V2', e) for e in S.mem_ev(A, S.mem, 'read', 'write') if 'data' in S.ptr_kinds(A, e.args[1])]
        for k, e in evs:
            if S.within(e, 'put_metadata', 'get_metadata'):
                continue
            c.check(A.g.established(e, is_kind(k)), '%s.%s' % (m, k), '%s uses %s chunks for a file whose content may be kept in the other format' % (m, k), A, e, facts_str(e.facts))
    c.need(8, 'accesses to content')
    kept(c, R, 'C37.kept')
    c.rule('C37.type', 'the format for new files changes only when it is set')
    for m in S.methods():
        A = S.an(m)
        for n in A.exits:
            fin = A.rd(engine.State(n.edgefacts, n.outfacts), ('p', A.argnames[0]), ctf)
            if m == 'set_chunk_type':
                c.check(fin is mk('init', A.argnames[1]), m + '.set', 'set_chunk_type sets `%s`' % show(fin)[:80], A)
            else:
                c.check(fin is CT, m + '.type', '%s changes the format used for new files' % m, A)
    c.need(20, 'exits')


def changed(A, v):
    """(fields changed, value they were changed in) for everything v can be"""
    out, seen, work = [], set(), [(frozenset(), v)]
    while work:
        ks, x = work.pop()
        if (ks, x) in seen:
            continue
        seen.add((ks, x))
        if x.op == 'with':
            work.append((ks | {k for k, _ in x.a[1]}, x.a[0]))
        elif x.op == 'phi' and x in A.phi_in:
            work += [(ks, y) for y in A.phi_in[x]]
        elif x.op != 'bot':
            out.append((set(ks), x))
    return out


def default_md(v, f):
    x = fld(v, f, 'Metadata')
    return x.op == 'agg' and x.a[1] == 'Directory'


def md_puts(S, A):
    """events that store metadata durably"""
    if S.ty == 'StableStorage':
        import rules_ca
        return list(rules_ca.md_writes(A, S))
    return [e for p in S.meta for e in S.map_ev(A, p, 'insert')]


def full(S, A, rng):
    """the range covers all chunks of one file"""
    x = rng.a[2]
    lb = x.a[0] if x.op == 'agg' else 'Range'
    s, n = fld(x, 'start', lb), fld(x, 'end', lb)
    return fld(s, '1', 'tuple') is ZERO and fld(n, '1', 'tuple').op == 'int' and fld(n, '1', 'tuple').a[0] >= MAXC and fld(s, '0', 'tuple') is fld(n, '0', 'tuple')


# ------------------------------------------------------------------ C09
def c09(c):
    R = Roles(c)
    c.rule('C09.new', 'a new node gets the number the stored counter gives, and the counter is advanced and stored before it is used')
    hp = {}
    for ty in BACK:
        S = St(c, R, ty)
        cnt = [p for p, t in S.leaf if p and p[-1][2] == 'Header' and c.P.types[t]['s'] == 'u64']
        A = S.an('new_node')
        for n in A.exits:
            if n.exit is None:
                continue
            rets = A.sources(n.exit)
            if S.header:
                sets = [e for e in S_cell(S, A) if e.meth == 'set']
                for r in rets:
                    ok = r.op == 'fld' and is_app(r.a[0], 'StableCell::get') and r.a[0].a[1] is S.term(S.header)
                    c.check(ok, ty + '.src', 'new_node of %s returns `%s`, not the stored counter' % (ty, show(r)[:80]), A)
                    good = [e for e in sets if ok and all(x is add(r, ONE) for x in A.sources(fld(e.args[1], r.a[1], 'Header')))
                            and fld(e.args[1], 'version', 'Header') is fld(r.a[0], 'version', 'Header')]
                    _, ex, _ = A.g.from_entry(lambda x: any(x is y for y in good))
                    c.check(bool(good) and not any(x is n for x in ex), ty + '.advance', 'new_node of %s can return a number without storing that it is used' % ty, A)
                    c.check(all(any(e is y for y in good) for e in sets), ty + '.other', 'new_node of %s stores another counter' % ty, A)
                hp[ty] = None
            else:
                if len(cnt) != 1:
                    raise Anchor('%s: node counter not recognised' % ty)
                fin = A.rd(engine.State(n.edgefacts, n.outfacts), ('p', A.argnames[0]), cnt[0])
                for r in rets:
                    c.check(r is S.term(cnt[0]), ty + '.src', 'new_node of %s returns `%s`, not the counter' % (ty, show(r)[:80]), A)
                    c.check(all(x is add(r, ONE) for x in A.sources(fin)), ty + '.advance', 'new_node of %s leaves the counter at `%s`' % (ty, show(fin)[:80]), A)
                hp[ty] = cnt[0]
    c.need(4, 'numbers given')
    c.rule('C09.keep', 'nothing else changes the counter')
    for ty in BACK:
        S = St(c, R, ty)
        for m in S.methods():
            if m == 'new_node':
                continue
            A = S.an(m)
            if hp[ty] is None:
                c.ob()
                for e in S_cell(S, A):
                    c.check(e.meth in ('get',), '%s.%s.set' % (ty, m), '%s of %s changes the node counter' % (m, ty), A, e)
                for n in A.exits:
                    fin = A.rd(engine.State(n.edgefacts, n.outfacts), ('p', A.argnames[0]), S.header)
                    c.check(fin is S.term(S.header), '%s.%s.hdr' % (ty, m), '%s of %s changes the header' % (m, ty), A)
            else:
                for n in A.exits:
                    fin = A.rd(engine.State(n.edgefacts, n.outfacts), ('p', A.argnames[0]), hp[ty])
                    c.check(fin is S.term(hp[ty]), '%s.%s.set' % (ty, m), '%s of %s leaves the node counter at `%s`' % (m, ty, show(fin)[:60]), A)
    c.need(100, 'exits of the other operations')
    c.rule('C09.start', 'the counter of a new storage starts behind the root directory; opening an existing storage leaves it as it is')
    S = St(c, R, 'StableStorage')
    rn = S.an('root_node')
    roots = {v for n in rn.exits for v in rn.sources(n.exit)}
    c.check(len(roots) == 1 and next(iter(roots)).op == 'int', 'root', 'the root node is not a constant', rn)
    root = next(iter(roots))
    for K in ctors(c, R, S):
        A = K.A
        for n in K.exits:
            hd = states(A, at_path(n.exit, S.header))
            c.check(len(hd) == 1 and at_path(n.exit, S.header) in hd, K.name + '.hdr', '%s changes the header of the storage it opens' % K.name, A)
            for h in hd:
                d = h.a[2] if is_app(h, 'StableCell::init') else None
                ok = d is not None and d.op == 'agg' and any(x.op == 'int' and root.op == 'int' and x.a[0] > root.a[0] for k, x in zip(d.a[2], d.a[3:]) if k != 'version')
                c.check(ok, K.name + '.start', '%s: the node counter of a new storage does not start behind the root node' % K.name, A)
    T_ = St(c, R, 'TransientStorage')
    A = c.an('TransientStorage', 'new', '')
    rn = T_.an('root_node')
    rt = {v for n in rn.exits for v in rn.sources(n.exit)}
    for n in A.exits:
        v = at_path(n.exit, hp['TransientStorage'])
        c.check(len(rt) == 1 and v.op == 'int' and v.a[0] > next(iter(rt)).a[0], 'transient.start', 'the node counter of a new TransientStorage does not start behind the root node', A)
    c.need(5, 'counters of new storages')
    c.rule('C09.use', 'every number taken is used for one new file or directory, and new metadata is recorded under a number just taken only')
    for m in c.fs_methods():
        if m == 'new':
            continue
        A = c.fs(m)
        lit = [p for p in puts(A) if p.lit]
        for p in lit:
            same_ = [q for q in lit if q.e is not p.e and q.node is p.node and any(x is q.e for x in A.g.after(p.e, lambda x: x.meth == 'new_node')[0])]
            c.check(sapp(p.node, 'new_node') and fld(p.v, 'node', 'Metadata') is p.node, m + '.number', '%s records new metadata under `%s`' % (m, show(p.node)[:80]), A, p.e)
            c.check(not same_, m + '.twice', '%s records two new files under one number' % m, A, p.e)
        for p in puts(A):
            if not p.lit and p.md:
                c.check(norm_node(p.md[1]) is norm_node(p.node) or p.md[1] is p.node, m + '.own', '%s records the metadata of `%s` for `%s`' % (m, show(p.md[1])[:60], show(p.node)[:60]), A, p.e)
        for e in entput(A):
            x = ent_node(e)
            for y in A.sources(x):
                if sapp(y, 'new_node'):
                    ok = [p.e for p in lit if p.node is y]
                    c.check(bool(ok) and (A.g.must_before(e, lambda z: any(z is w for w in ok)) or not A.g.must_after(e, lambda z: any(z is w for w in ok), may_ok(A))), m + '.entry',
                            '%s makes an entry for a node without metadata' % m, A, e)
    c.need(30, 'uses of node numbers')


def S_cell(S, A):
    for e in A.events():
        if e.cls == 'StableCell' and e.recv is not None and S.at(e, A, S.header):
            yield e


# ------------------------------------------------------------------ C33
def c33(c):
    R = Roles(c)
    for ty in BACK:
        S = St(c, R, ty)
        A = S.an('with_direntries')
        node, idx = mk('init', A.argnames[1]), mk('init', A.argnames[2])
        some_idx = fld(idx, 'Some.0', 'Option')
        calls = {}
        for e in A.events():
            if e.meth == 'call_mut':
                calls.setdefault(what(A, S, e), []).append(e)
        DOT, DOTDOT = dots(calls)
        spec = (DOT, DOTDOT)
        c.rule('C33.elem', 'the callback gets every stored entry of the directory with its own number, and nothing else but the entries "." and ".."')
        for k, es in calls.items():
            for e in es:
                c.check(k is not None, ty + '.elem', 'with_direntries of %s passes `%s`, which is not an entry of the directory' % (ty, show(e.args[1])[:120]), A, e)
        reg = calls.get('entry', [])
        rngs = [e for e in S.map_ev(A, S.dir, 'range')]
        for e in rngs:
            s, n = S.range_of(e)
            c.check(fld(s, '0', 'tuple') is node and fld(n, '0', 'tuple') is node, ty + '.dir', 'with_direntries of %s goes through the entries of another directory' % ty, A, e)
            hi = fld(n, '1', 'tuple')
            c.check(hi.op == 'int' and hi.a[0] >= min(DOT, DOTDOT) - 5, ty + '.end', 'with_direntries of %s stops at entry `%s`' % (ty, show(hi)[:60]), A, e)
            lo = fld(s, '1', 'tuple')
            for v, f, ch in leaf_paths(A, lo, e.facts):
                isnone = on_chain(A, f, ch, lambda g: g.get(mk('disc', idx)) == frozenset([0]))
                isspec = on_chain(A, f, ch, lambda g: special(A, g, some_idx, spec) is True)
                notspec = on_chain(A, f, ch, lambda g: special(A, g, some_idx, spec) is False)
                if v is ZERO:
                    ok = isnone or isspec or on_chain(A, f, ch, lambda g: g.get(some_idx) == frozenset([0]))
                else:
                    ok = v is not None and notspec and (v is some_idx or is_app(v, 'min') and some_idx in v.a[1:] and all(x is some_idx or x.op == 'int' and x.a[0] >= min(spec) - 5 for x in v.a[1:])
                                                        or v.op == 'int' and hi is v)
                c.check(ok, ty + '.start', 'with_direntries of %s starts at entry `%s`' % (ty, show(v)[:80] if v is not None else '?'), A, e, facts_str(f))
        c.need(6, 'entries passed')
        c.rule('C33.all', 'no stored entry is skipped or passed twice, and the listing goes on until the callback asks to stop, which it then does')
        nexts = [e for e in A.events() if e.meth in ('next', 'next_back') and any(is_app(r, 'iter_range') for r in iter_srcs(A, iterof(e)))]
        c.check(bool(nexts) and all(e.meth == 'next' for e in nexts) and bool(reg), ty + '.order', 'with_direntries of %s does not go through the entries in order' % ty, A)
        for e in nexts:
            heads = [b for a, b in A.g.fact_edges(mk('disc', e.res), 1)]
            evs, ex, _ = A.g.reach_nodes(heads, lambda x: any(x is y for y in reg))
            c.check(bool(heads) and not ex and not any(any(x is y for y in nexts) for x in evs), ty + '.skip', 'with_direntries of %s can skip an entry' % ty, A, e)
        for e in reg:
            # one call per entry
            evs, _, _ = A.g.after(e, lambda x: any(x is y for y in nexts))
            c.check(not any(any(x is y for y in reg) for x in evs), ty + '.twice', 'with_direntries of %s can pass an entry twice' % ty, A, e)
            heads = [b for a, b in A.g.fact_edges(e.res, 1)]
            _, ex, _ = A.g.reach_nodes(heads, lambda x: any(x is y for y in nexts))
            c.check(not ex, ty + '.early', 'with_direntries of %s can end before the last entry although the callback asks for more' % ty, A, e)
        for es in calls.values():
            for e in es:
                heads = stops(A, e.res)
                evs, _, _ = A.g.reach_nodes(heads)
                c.check(bool(heads) and not any(x.meth == 'call_mut' for x in evs), ty + '.stop', 'with_direntries of %s goes on after the callback asked to stop' % ty, A, e)
        for n in nexts:
            for r in rngs:
                evs, _, _ = A.g.after(r)
                c.check(not any(x is y for x in evs for y in rngs), ty + '.again', 'with_direntries of %s can go through the entries twice' % ty, A, r)
        c.need(10, 'steps of a listing')
        c.rule('C33.dots', '"." and ".." come first, in this order, when the listing starts before the entries, and are left out when it starts at an entry')
        dot, dotdot = calls.get('.', []), calls.get('..', [])
        for e in dot:
            c.check(fld(fld(e.args[1], '1', 'tuple'), 'node', 'DirEntry') is node, ty + '.dotnode', 'with_direntries of %s gives "." the node `%s`' % (ty, show(fld(fld(e.args[1], '1', 'tuple'), 'node', 'DirEntry'))[:60]), A, e)
        for name, kind in (('the beginning', None), ('"."', DOT), ('".."', DOTDOT), ('an entry', 'other')):
            # only paths on which the listing starts as given
            memo_ = {}
            def ok(a, b, kind=kind, memo_=memo_):
                if (a, b) not in memo_:
                    memo_[(a, b)] = any(starts_at(A, s.facts, idx, some_idx, kind, spec) for k, s in A.nodelist[b].ins.items() if k[0] == a)
                return memo_[(a, b)]
            evs = A.g.from_entry(edge_ok=ok)[0]
            hit = lambda l: [x for x in evs if any(x is y for y in l)]
            for l, nm, w in ((dot, '.', kind is None or kind == DOT), (dotdot, '..', kind != 'other')):
                if not w:
                    c.check(not hit(l), ty + '.extra.' + nm, 'with_direntries of %s passes "%s" although the listing starts behind it (at %s)' % (ty, nm, name), A, l[0])
                    continue
                c.check(bool(hit(l)), ty + '.absent.' + nm, 'with_direntries of %s never passes "%s" when the listing starts at %s' % (ty, nm, name), A)
                for e in hit(reg + rngs):
                    c.check(A.g.must_before(e, lambda x: any(x is y for y in l), ok), ty + '.missing.' + nm, 'with_direntries of %s leaves "%s" out although the listing starts at %s' % (ty, nm, name), A, e)
                for e in hit(l):
                    c.check(not [x for x in A.g.after(e, edge_ok=ok)[0] if any(x is y for y in l)], ty + '.again.' + nm, 'with_direntries of %s can pass "%s" twice' % (ty, nm), A, e)
            if kind is None or kind == DOT:
                for e in hit(dotdot):
                    c.check(A.g.must_before(e, lambda x: any(x is y for y in dot), ok), ty + '.first', 'with_direntries of %s passes ".." before "."' % ty, A, e)
        c.need(8, 'special entries')
    c.rule('C33.get', 'a single entry is the one stored under the directory and number asked for')
    for ty in BACK:
        S = St(c, R, ty)
        A = S.an('get_direntry')
        node, ix = mk('init', A.argnames[1]), mk('init', A.argnames[2])
        for n in A.exits:
            if n.exit is None:
                continue
            for v in A.sources(n.exit):
                if v.op == 'agg' and v.a[1] == 'Ok':
                    x = v.a[3]
                    ok = is_app(x, 'at') and x.a[1] is S.term(S.dir) and fld(x.a[2], '0', 'tuple') is node and fld(x.a[2], '1', 'tuple') is ix
                    c.check(ok, ty + '.get', 'get_direntry of %s returns `%s`' % (ty, show(x)[:100]), A)
    c.need(2, 'entries returned')
    c.rule('C33.fs', 'the listing and lookup of the file system are those of the directory of the descriptor, from the entry asked for')
    for m, sm in (('with_direntries', 'with_direntries'), ('get_direntry', 'get_direntry')):
        A = c.fs(m)
        es = list(storage_events(A, sm))
        for e in es:
            c.check(entry_dir_node(R, e.args[1]) and e.args[2] is R.param(A, 2), m + '.args', '%s lists `%s` from `%s`' % (m, show(e.args[1])[:80], show(e.args[2])[:60]), A, e)
            if m == 'with_direntries':
                c.check(e.args[3] is R.param(A, 3) or contains(e.args[3], R.param(A, 3)), m + '.cb', '%s does not pass the callback on' % m, A, e)
        _, ex, _ = A.g.from_entry(lambda x: any(x is y for y in es))
        c.check(bool(es) and not [n for n in ex if 'Ok' in variant(A, n)], m + '.none', '%s can succeed without looking at the directory' % m, A)
    c.need(5, 'listings of the file system')


def what(A, S, e):
    """what a callback gets: 'entry', '.', '..' or None"""
    i, x = fld(e.args[1], '0', 'tuple'), fld(e.args[1], '1', 'tuple')
    if i.op == 'int':
        nm = fld(x, 'name', 'DirEntry')
        ln = fld(nm, 'length', 'FileName')
        by = bytes_of(fld(nm, 'bytes', 'FileName'))
        if ln.op == 'int' and by:
            k = bytes(by[:ln.a[0]]).decode('latin1')
            return k if k in ('.', '..') else None
        return None
    nx = elem_next(A, x)
    if len(nx) == 1 and elem_next(A, i) == nx:
        n, = nx
        el = fld(n, 'Some.0', 'Option')
        if i is fld(fld(el, '0', 'tuple'), '1', 'tuple') and x is fld(el, '1', 'tuple') and any(is_app(r, 'iter_range') and r.a[1] is S.term(S.dir) for r in iter_srcs(A, n.a[1])):
            return 'entry'
    return None


def dots(calls):
    r = []
    for k in ('.', '..'):
        v = {fld(e.args[1], '0', 'tuple') for e in calls.get(k, [])}
        if len(v) != 1:
            raise Anchor('with_direntries: entry "%s" not recognised' % k)
        r.append(next(iter(v)).a[0])
    return r


def special(A, f, idx, spec):
    """the listing starts at one of the special entries (False: certainly not)"""
    for t, v in f.items():
        if t is not idx:
            # Option::unwrap_or(0) and the like
            ls = A.sources(t) if t.op == 'phi' else ()
            if not (idx in ls and all(x is idx or x is ZERO for x in ls)):
                continue
        if type(v) is frozenset:
            if v <= set(spec):
                return True
            if not v & set(spec):
                return False
        if type(v) is tuple and set(spec) <= set(v[1]):
            return False
    return None


def starts_at(A, f, idx, some, kind, spec):
    """can the facts hold when the listing starts at `kind`? (None: from the beginning; 'other': no special entry)"""
    d = f.get(mk('disc', idx))
    if type(d) is frozenset and (0 if kind is None else 1) not in d:
        return False
    for t, v in f.items():
        if t is some and kind is None:
            continue
        if t is not some:
            # Option::unwrap_or(0) and the like
            ls = list(A.sources(t)) if t.op == 'phi' else []
            if not (some in ls and all(x is some or x is ZERO for x in ls)):
                continue
        k = 0 if kind is None else kind
        if k == 'other':
            if type(v) is frozenset and v <= set(spec):
                return False
        elif type(v) is frozenset and k not in v or type(v) is tuple and k in v[1]:
            return False
    return True


def stops(A, res):
    """nodes entered because the callback returned false"""
    return [b for a, b in A.g.fact_edges(res, 0)]
