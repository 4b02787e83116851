"""Roles: which fields of which types hold what, resolved from the type table of the
compiled crate (by field *type*, so that renaming a private field does not matter)."""
from terms import *
from core import Anchor
import engine


class Roles:
    def __init__(self, ctx):
        self.c = ctx
        P = self.P = ctx.P
        self.structs = {}
        for i, t in enumerate(P.types):
            if t.get('k') == 'adt' and t.get('local') and t.get('adt') == 'struct':
                self.structs.setdefault(t['path'].split('::')[-1], (i, t))
        self.enums = {}
        for i, t in enumerate(P.types):
            if t.get('k') == 'adt' and t.get('local') and t.get('adt') == 'enum':
                self.enums.setdefault(t['path'].split('::')[-1], (i, t))
        # --- FileSystem
        self.f_fdtab = self.field('FileSystem', lambda n, t: self.tn(t) == 'FdTable')
        self.f_storage = self.field('FileSystem', lambda n, t: 'dyn' in P.types[t].get('s', '') and 'Storage' in P.types[t]['s'])
        self.f_names = self.field('FileSystem', lambda n, t: self.tn(t) == 'FilenameCache')
        self.f_table = self.field('FdTable', lambda n, t: self.ismap(t) and 'FdEntry' in P.types[t]['s'])
        self.f_refs = self.field('FdTable', lambda n, t: self.ismap(t) and 'FdEntry' not in P.types[t]['s'])
        self.f_free = self.field('FdTable', lambda n, t: self.tn(t) in ('Vec', 'VecDeque', 'BTreeSet', 'HashSet', 'BinaryHeap'))
        self.f_next = self.field('FdTable', lambda n, t: P.types[t].get('k') == 'uint')
        me = mk('init', 'self')
        self.TAB = fld(fld(me, self.f_fdtab, 'FileSystem'), self.f_table, 'FdTable')
        self.REFS = fld(fld(me, self.f_fdtab, 'FileSystem'), self.f_refs, 'FdTable')
        self.FREE = fld(fld(me, self.f_fdtab, 'FileSystem'), self.f_free, 'FdTable')
        self.NEXT = fld(fld(me, self.f_fdtab, 'FileSystem'), self.f_next, 'FdTable')
        TABS.update([self.TAB, self.REFS])
        self.STOR = fld(me, self.f_storage, 'FileSystem')
        fdp = ('f', self.f_fdtab, 'FileSystem')
        self.p_tab = (fdp, ('f', self.f_table, 'FdTable'))
        self.p_refs = (fdp, ('f', self.f_refs, 'FdTable'))
        self.p_free = (fdp, ('f', self.f_free, 'FdTable'))
        self.p_next = (fdp, ('f', self.f_next, 'FdTable'))
        self.ED = {v['name']: int(v['discr']) for v in self.enums['FdEntry'][1]['variants']}
        self.FT = {v['name']: int(v['discr']) for v in self.enums['FileType'][1]['variants']}
        self.payload = {v['name']: (v['name'] + '.' + v['fields'][0][0], self.P.tname(v['fields'][0][1])) for v in self.enums['FdEntry'][1]['variants']}

    def tn(self, t):
        return self.P.tname(t)

    def ismap(self, t):
        return self.tn(t) in ('BMap', 'HMap', 'SMap')

    def field(self, struct, pred):
        if struct not in self.structs:
            raise Anchor('type %s not found in the crate' % struct)
        fs = [n for n, t in self.structs[struct][1]['variants'][0]['fields'] if pred(n, t)]
        if len(fs) != 1:
            raise Anchor('type %s: expected one matching field, found %r' % (struct, fs))
        return fs[0]

    def fields(self, struct):
        return [n for n, t in self.structs[struct][1]['variants'][0]['fields']]

    # ---- parameters by position / type
    def param(self, A, i):
        return mk('init', A.argnames[i])

    def param_of_type(self, A, tname):
        for i in range(1, A.root['argc'] + 1):
            if self.P.tname(A.root['locals'][i]) == tname:
                return mk('init', A.argnames[i - 1])
        return None

    # ---- fd entries
    def slot(self, fd, T=None):
        return app('get', T or self.TAB, fd)

    def entry(self, fd, T=None):
        return app('at', T or self.TAB, fd)

    def inner(self, ent, kind):
        """payload of FdEntry::<kind>"""
        return fld(ent, self.payload[kind][0], 'FdEntry')

    def read(self, A, env, facts, path):
        return A.rd(engine.State(env, facts), ('p', A.argnames[0]), path)


TABS = set()


def split_fd(t):
    """path-split predicate: facts about descriptors passed to the operation"""
    x = t
    if x.op == 'disc':
        x = x.a[0]
        return x.op == 'app' and x.a[0] in ('get', 'at') and x.a[2].op == 'init' and is_tab(x.a[1])
    if x.op in ('eq0', 'le0'):
        L = x.a[0]
        if L.op == 'lin':
            return all(y.op == 'init' for k, y in L.a[1])
        return L.op == 'init'
    return x.op == 'init'


def is_tab(m):
    return strip(m) in TABS


def strip(m):
    while m.op == 'upd':
        m = m.a[1]
    return m
