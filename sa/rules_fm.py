"""What stored records look like: what is written is read back, in the format every version has used."""
from core import *
from terms import *
import core as _core
import engine
import re

SELF = mk('init', 'self')
# names of the parts in stored records, since the first version that had them
WIRE = {'Header': ('version', 'next_node'),
        'Metadata': ('node', 'file_type', 'link_count', 'size', 'times', 'first_dir_entry', 'last_dir_entry', 'chunk_type', 'maximum_size_allowed'),
        'Times': ('accessed', 'modified', 'created'),
        'FileName': ('length', 'bytes'),
        'DirEntry': ('name', 'node', 'entry_type')}
# parts that records of earlier versions do not have
LATER = {'Metadata': ('chunk_type', 'maximum_size_allowed')}
ENUM = {'FileType': ('Directory', 'RegularFile', 'SymbolicLink'), 'ChunkType': ('V1', 'V2')}
CODE = {'Directory': 3, 'RegularFile': 4, 'SymbolicLink': 7}
# the record of a mounted file kept in memory: offsets and sizes
LAYOUT = {'node': (0, 8), 'file_type': (8, 1), 'link_count': (16, 8), 'size': (24, 8), 'times': (32, 24),
          'first_dir_entry': (56, 8), 'last_dir_entry': (64, 8), 'chunk_type': (72, 1), 'maximum_size_allowed': (80, 16)}
NAME, CHUNK = 255, 4096


class Flat(engine.Analysis):
    """one state per block: for generated code whose branches only collect optional values"""
    def pkey(self, *a):
        return ()


# ---------------------------------------------------------------- contents of byte strings
class Bytes:
    """a value as a list of pieces [lo, hi, source]: source = ('b', byte) | ('c', constant) | ('t', term, offset)"""
    def __init__(self, lens):
        self.lens = lens

    def of(self, t, d=0):
        if d > 30:
            return None
        n = self.lens.get(t)
        if n is not None:
            return [(0, n, ('t', t, 0))]
        if t.op == 'upd' and t.a[0] == 'push':
            b = self.of(t.a[1], d + 1)
            return None if b is None else b + [(self.end(b), self.end(b) + 1, self.byte(t.a[2]))]
        if t.op == 'agg' and t.a[0] == 'array':
            return [(i, i + 1, self.byte(x)) for i, x in enumerate(t.a[3:])]
        if t.op == 'fill':
            n = t.a[1] if type(t.a[1]) is int else t.a[1].a[0] if is_int(t.a[1]) else None
            return None if n is None else [(0, n, ('c', INT(t.a[0]) if type(t.a[0]) is int else t.a[0]))] if n else []
        if t.op not in ('app', 'upd'):
            return None
        f, a = str(t.a[0]) + ('!' if t.op == 'upd' else ''), t.a[1:]
        if f in ('vecnew', 'vecnew!') or f.startswith('Vec::with_capacity'):
            return []
        if f in ('fill', 'filled') and is_int(a[1]):
            return [(0, a[1].a[0], ('c', a[0]))] if a[1].a[0] else []
        if f == 'store!' and is_int(a[1]):
            i = a[1].a[0]
            return self.put(self.of(a[0], d + 1), i, i + 1, [(0, 1, self.byte(a[2]))])
        if f == 'splice!' and is_int(a[1]) and is_int(a[2]):
            return self.put(self.of(a[0], d + 1), a[1].a[0], a[2].a[0], self.of(a[3], d + 1))
        if f == 'sl' and is_int(a[1]) and is_int(a[2]):
            return self.cut(self.of(a[0], d + 1), a[1].a[0], a[2].a[0])
        if f.startswith('Vec::extend') and f.endswith('!'):
            b, s = self.of(a[0], d + 1), self.of(a[1], d + 1)
            if b is None or s is None:
                return None
            k = self.end(b)
            return b + [(lo + k, hi + k, x) for lo, hi, x in s]
        if f == 'concat':
            out = []
            for x in a:
                s = self.of(x, d + 1)
                if s is None:
                    return None
                k = self.end(out)
                out = out + [(lo + k, hi + k, y) for lo, hi, y in s]
            return out
        return None

    def end(self, b):
        return b[-1][1] if b else 0

    def byte(self, v):
        if is_app(v, 'idx') and is_int(v.a[2]):
            b = self.cut(self.of(v.a[1]), v.a[2].a[0], v.a[2].a[0] + 1)
            if b and len(b) == 1:
                return b[0][2]
        return ('b', v)

    @staticmethod
    def piece(s, k):
        return (s[0], s[1], s[2] + k) if s[0] == 't' else s

    def cut(self, b, lo, hi):
        if b is None or hi > self.end(b) or lo > hi:
            return None
        r = []
        for l, h, s in b:
            a, z = max(l, lo), min(h, hi)
            if a < z:
                r.append((a - lo, z - lo, self.piece(s, a - l)))
        return r

    def put(self, b, lo, hi, src):
        if b is None or src is None or self.end(src) != hi - lo or hi > self.end(b):
            return None
        r = self.cut(b, 0, lo) + [(l + lo, h + lo, s) for l, h, s in src]
        return r + [(l + hi, h + hi, s) for l, h, s in self.cut(b, hi, self.end(b))]

    def norm(self, t):
        b = self.of(t)
        if b is None:
            return None
        r = []
        for p in b:
            if r:
                l, h, s = r[-1]
                if s[0] == 't' == p[2][0] and s[1] is p[2][1] and s[2] + (h - l) == p[2][2] or s[0] == 'c' == p[2][0] and s[1] is p[2][1]:
                    r[-1] = (l, p[1], s)
                    continue
            r.append(p)
        # a piece of one byte of a longer value is that byte
        return r


def sh(b):
    if b is None:
        return 'something else'
    return ' '.join('[%d..%d)=%s' % (lo, hi, show(s[1]) + ('' if s[0] != 't' else '[%d..]' % s[2])) for lo, hi, s in b)


# ---------------------------------------------------------------- finding things
class Fm:
    def __init__(self, c):
        self.c, self.P = c, c.P
        self._an = {}
        self.ty = {}
        for t in self.P.types:
            if t.get('k') == 'adt' and t.get('local') and t.get('path') and not t.get('args'):
                self.ty.setdefault(t['path'].rsplit('::', 1)[-1], t)

    def items(self, name, trait, meth):
        r = [x for x in self.P.local if not x['closure'] and x['kind'] == 'item' and (x.get('impl_self') or '').rsplit('::', 1)[-1] == name
             and '<' not in (x.get('impl_self') or '') and (x.get('impl_trait') or '').rsplit('::', 1)[-1].split('<')[0] == trait and x['raw'].rsplit('::', 1)[-1] == meth]
        return r

    def one(self, name, trait, meth):
        r = self.items(name, trait, meth)
        if not r:
            raise Anchor('<%s as %s>::%s not found in the analysed crate' % (name, trait, meth))
        return self.an(r[0], '%s::%s' % (name, meth))

    def inside(self, x, meth, depth=1):
        """the items defined in the body of x"""
        p = x['raw'] + '::'
        return [y for y in self.P.local if not y['closure'] and y['kind'] == 'item' and y['raw'].startswith(p) and y['raw'].rsplit('::', 1)[-1] == meth and y['raw'][len(p):].count('::') == depth]

    def an(self, x, title, flat=False):
        k = (x['raw'], flat)
        A = self._an.get(k)
        if A is None:
            A = (Flat if flat else engine.Analysis)(self.P, x)
            A.title = title
            A.g = Graph(A)
            self._an[k] = A
            self.c.roots[title] = A
        return A

    def values(self, A):
        """(value, facts) of the normal ends"""
        for n in A.exits:
            for v, f in leaves(A, n.exit, n.outfacts):
                yield n, v, f

    def fields(self, name):
        t = self.ty.get(name)
        if not t or len(t['variants']) != 1:
            raise Anchor('the record %s is not there any more' % name)
        return t['variants'][0]['fields']

    def is_option(self, ty):
        return 'Option<' in (self.P.types[ty].get('s') or '')

    def plain(self, A, n, v):
        """the byte string behind a copy-on-write value or reference"""
        for _ in range(6):
            if v.op == 'agg' and v.a[1] in ('Owned', 'Borrowed'):
                v = v.a[3]
            elif v.op == 'ref':
                v = A.rd(engine.State(dict(n.env or {}), n.outfacts), v.a[0], v.a[1])
            else:
                break
        return v


# ---------------------------------------------------------------- C21
def c21(c):
    F = Fm(c)
    self_bytes = fld(SELF, 'bytes', '')
    c.rule('C21.bytes', 'names and chunks are stored as the bytes they consist of, at the places they have always had, and read back from there')
    for name, n, want in (('FileName', NAME + 1, [(0, 1, ('b', fld(SELF, 'length', ''))), (1, NAME + 1, ('t', self_bytes, 0))]), ('FileChunk', CHUNK, [(0, CHUNK, ('t', self_bytes, 0))])):
        B = Bytes({self_bytes: NAME if name == 'FileName' else CHUNK})
        forms = []
        for meth in ('to_bytes', 'into_bytes'):
            r = F.items(name, 'Storable', meth)
            if meth == 'into_bytes' and not r:
                continue
            A = F.one(name, 'Storable', meth)
            for x, v, f in F.values(A):
                t = F.plain(A, x, v) if v is not None else None
                b = B.norm(t) if t is not None else None
                c.check(b == want, '%s.%s' % (name, meth), '%s::%s: stores %s instead of %s' % (name, meth, sh(b), sh(want)), A, None, show(v)[:300] if v is not None else None)
                if b is not None and t is not None:
                    forms.append(t)
        A = F.one(name, 'Storable', 'from_bytes')
        par = mk('init', A.argnames[0]) if A.argnames else None
        for x, v, f in F.values(A):
            c.check(v is not None and v.op == 'agg' and par is not None, name + '.from', '%s::from_bytes makes something else than a %s of the bytes' % (name, name), A)
            if v is None or v.op != 'agg' or par is None:
                continue
            B2 = Bytes({self_bytes: B.lens[self_bytes], par: n})
            for (fn, _) in F.fields(name):
                t = fld(v, fn, '')
                if fn == 'length':
                    got = B2.byte(t)
                    c.check(got == ('t', par, 0), name + '.from.length', '%s::from_bytes takes the length from `%s` instead of the first byte' % (name, show(t)[:80]), A)
                else:
                    at = 1 if name == 'FileName' else 0
                    got = B2.norm(F.plain(A, x, t))
                    c.check(got == [(0, n - at, ('t', par, at))], name + '.from.' + fn, '%s::from_bytes takes the bytes from %s' % (name, sh(got)), A, None, show(t)[:300])
    c.need(6, 'encodings of names and chunks')

    c.rule('C21.new', 'a name made of a byte string has its length and exactly its bytes')
    A = F.an(_found(F, 'FileName', 'new'), 'FileName::new')
    arg = mk('init', A.argnames[0])
    oks = 0
    for x, v, f in F.values(A):
        if v is None or v.op != 'agg' or v.a[1] not in ('Ok', 'Err'):
            c.check(False, 'new', 'FileName::new ends with something else than a name or an error', A)
            continue
        short = holds(A, f, le(app('len', arg), INT(NAME)))
        if v.a[1] == 'Err':
            c.check(short is False, 'new.err', 'FileName::new refuses a name that fits', A, None, facts(f))
            continue
        oks += 1
        c.check(short is True, 'new.long', 'FileName::new accepts a name that does not fit', A, None, facts(f))
        ln, by = fld(v.a[3], 'length', ''), fld(v.a[3], 'bytes', '')
        while is_app(ln, 'trunc') or (ln.op == 'app' and str(ln.a[0]).startswith('cast')):
            ln = ln.a[1]
        c.check(ln is app('len', arg), 'new.length', 'FileName::new stores `%s` as the length' % show(ln)[:80], A)
        good = by.op == 'upd' and by.a[0] == 'splice' and by.a[2] is ZERO and by.a[3] is app('len', arg) and by.a[4] is arg and Bytes({}).norm(by.a[1]) == [(0, NAME, ('c', ZERO))]
        c.check(good, 'new.bytes', 'FileName::new stores `%s` as the bytes' % show(by)[:120], A)
    c.need(4, 'ends of FileName::new')

    c.rule('C21.same', 'two names are the same exactly if they have the same length and the same bytes up to it')
    A = F.one('FileName', 'PartialEq', 'eq')
    ps = [mk('init', p) for p in A.argnames[:2]]
    lens = [fld(p, 'length', '') for p in ps]
    L = eq(lens[0], lens[1])
    pres = []
    for a in lens:
        for b in lens:
            for x, y in ((0, 1), (1, 0)):
                s, t = app('sl', fld(ps[x], 'bytes', ''), ZERO, a), app('sl', fld(ps[y], 'bytes', ''), ZERO, b)
                own = a is lens[x] and b is lens[y]
                pres.append((eqvt(s, t), own))
    for n, v, f in F.values(A):
        for tv in (True, False):
            k = holds(A, f, v) if v is not None else None
            if k is not None and k is not tv:
                continue
            known = [(t, own) for t, own in pres if truth_with(A, f, v, tv, t) is tv]
            le_ = truth_with(A, f, v, tv, L)
            if tv:
                ok = known and (le_ is True or any(own for t, own in known))
            else:
                ok = le_ is False or known
            c.check(bool(ok), 'eq.%s' % tv, 'two names count as %s although %s' % ('the same' if tv else 'different', 'only part of them is known to agree' if tv else 'neither the lengths nor the bytes up to them are known to differ'),
                    A, None, '%s | %s' % (show(v)[:200] if v is not None else None, facts(f)))
    c.need(3, 'outcomes of the comparison')

    c.rule('C21.order', 'names are ordered byte by byte, a name before its continuations: the order the stored maps of names have always had')
    for tr, meth in (('Ord', 'cmp'), ('PartialOrd', 'partial_cmp')):
        A = F.one('FileName', tr, meth)
        p, q = [mk('init', x) for x in A.argnames[:2]]
        lp, lq = fld(p, 'length', ''), fld(q, 'length', '')
        whole = [app('Ord::cmp', app('sl', fld(p, 'bytes', ''), ZERO, lp), app('sl', fld(q, 'bytes', ''), ZERO, lq))]
        for m in (app('min', lp, lq), app('min', lq, lp)):
            part = app('Ord::cmp', app('sl', fld(p, 'bytes', ''), ZERO, m), app('sl', fld(q, 'bytes', ''), ZERO, m))
            whole.append(part)
        for n, v, f in F.values(A):
            if v is not None and meth == 'partial_cmp':
                if v.op == 'agg' and v.a[1] == 'Some':
                    vs = list(leaves(A, v.a[3], f))
                else:
                    vs = [(None, f)]
            else:
                vs = [(v, f)]
            for v, f in vs:
                part = whole[1:]
                d = next((f.get(mk('disc', w)) for w in part if type(f.get(mk('disc', w))) is frozenset), None)
                if v is None:
                    ok = False
                elif v is whole[0]:
                    ok = True
                elif v in part:
                    ok = d is not None and 0 not in d
                elif v.op == 'app' and str(v.a[0]).lower().endswith('cmp') and v.a[1] is lp and v.a[2] is lq:
                    ok = d == frozenset([0])
                elif v.op == 'agg' and v.a[1] in ('Less', 'Greater', 'Equal'):
                    want = {'Less': frozenset([255]), 'Greater': frozenset([1])}.get(v.a[1])
                    ok = (d == want and want is not None) or (d == frozenset([0]) and holds(A, f, {'Less': lt(lp, lq), 'Greater': lt(lq, lp), 'Equal': eq(lp, lq)}[v.a[1]]) is True)
                else:
                    ok = False
                c.check(ok, meth, 'names are ordered by `%s`%s: maps of names stored before are in another order' % (show(v)[:140] if v is not None else '?', '' if d is None else ' once their common part compares %s' % sorted(d)), A, None, facts(f))
    c.need(4, 'outcomes of comparisons')

    c.rule('C21.cbor', 'headers, directory entries and metadata are stored whole in one encoding and decoded with the same one')
    for name in ('Header', 'Metadata', 'DirEntry'):
        for meth in ('to_bytes', 'into_bytes'):
            if meth == 'into_bytes' and not F.items(name, 'Storable', meth):
                continue
            A = F.one(name, 'Storable', meth)
            for n, v, f in F.values(A):
                t = F.plain(A, n, v) if v is not None else None
                good = t is not None and t.op == 'upd' and str(t.a[0]).startswith('ciborium::into_writer') and any(x is SELF for x in t.a[1:]) \
                    and any(Bytes({}).of(x) == [] for x in t.a[1:] if x is not SELF)
                c.check(good, '%s.%s' % (name, meth), '%s::%s stores `%s` instead of the encoding of the whole record' % (name, meth, show(t)[:120] if t is not None else '?'), A)
        A = F.one(name, 'Storable', 'from_bytes')
        par = mk('init', A.argnames[0])
        for n, v, f in F.values(A):
            good = v is not None and v.op == 'fld' and v.a[1] == 'Ok.0' and v.a[0].op == 'app' and str(v.a[0].a[0]).startswith('ciborium::from_reader') and v.a[0].a[1] is par
            c.check(good, name + '.from', '%s::from_bytes yields `%s` instead of what the bytes encode' % (name, show(v)[:120] if v is not None else '?'), A)
    c.need(9, 'encodings of records')

    c.rule('C21.fields', 'every part of a record is encoded under the name it has always had and decoded from that name into the same part')
    for name in WIRE:
        fields = [x[0] for x in F.fields(name)]
        types = dict(F.fields(name))
        A = F.one(name, 'Serialize', 'serialize')
        out = None
        for n, v, f in F.values(A):
            if v is not None and v.op == 'agg' and v.a[1] == 'Err':
                continue
            got = chain_of(v) if v is not None else None
            c.check(got is not None, name + '.ser', '%s: not encoded as its parts' % name, A, None, show(v)[:300] if v is not None else None)
            if got is None:
                continue
            m = {}
            for key, val in got:
                w = val
                if w.op == 'agg' and w.a[0] == '__SerializeWith':
                    w = w.a[3].a[3] if w.a[3].op == 'agg' and len(w.a[3].a) == 4 else w
                m.setdefault(key, []).append(w)
            for key, ws in m.items():
                c.check(len(ws) == 1 and ws[0].op == 'fld' and ws[0].a[0] is SELF, '%s.%s.value' % (name, key), '%s: `%s` stored under the name "%s"' % (name, show(ws[0])[:80], key), A)
            cur = {key: ws[0].a[1] for key, ws in m.items() if ws[0].op == 'fld'}
            for fn in fields:
                c.check(list(cur.values()).count(fn) == 1, '%s.%s.stored' % (name, fn), '%s: the part `%s` is not stored' % (name, fn), A)
            for key in WIRE[name]:
                c.check(key in cur, '%s.%s.name' % (name, key), '%s: nothing is stored under the name "%s" other versions look for' % (name, key), A)
            c.check(out is None or out == cur, name + '.one', '%s: stored in different ways' % name, A)
            out = cur
        if out is None:
            c.check(False, name + '.ser', '%s: not encoded as its parts' % name, A)
            continue
        names, vm = reader(c, F, name)
        if vm is None:
            continue
        seen = any(s.op == 'agg' and s.a[1] == 'Ok' for n in vm.exits for s in ([n.exit] if n.exit.op != 'phi' else vm.sources(n.exit)))
        for v in [fld(n.exit, 'Ok.0', '') for n in vm.exits]:
            for key, fn in sorted(out.items()):
                i = names.get(key)
                c.check(i is not None, '%s.%s.known' % (name, key), '%s: the name "%s" it is stored under is not known when decoding' % (name, key), vm)
                if i is None:
                    continue
                src = origins(vm, fld(v, fn, ''))
                bad = [s for s in src if s[0] != 'missing' and not (s[0] == 'value' and s[1] == i)]
                vals = [s for s in src if s[0] == 'value']
                c.check(vals and not bad, '%s.%s.decoded' % (name, key), '%s: the part `%s` is decoded from %s' % (name, fn, ', '.join('"%s"' % next((k for k, j in names.items() if j == s[1]), s[1]) if s[0] == 'value' else s[1] for s in (bad or src)) or 'nothing'), vm)
                old = key in WIRE[name] and key not in LATER.get(name, ())
                c.check(old or F.is_option(types[fn]) or not any(s[0] == 'missing' and s[1] == 'error' for s in src), '%s.%s.later' % (name, key), '%s: records of earlier versions, which have no "%s", are not readable any more' % (name, key), vm)
        c.check(seen, name + '.decoded', '%s: decoding never yields a record' % name, vm)
    c.need(80, 'parts of records')

    c.rule('C21.with', 'the bytes of a name within an entry are encoded as one byte string and decoded from one')
    x = F.items('FileName', 'Serialize', 'serialize')[0]
    for y in F.inside(x, 'serialize'):
        A = F.an(y, 'FileName::serialize::bytes')
        for n, v, f in F.values(A):
            good = v is not None and re.search(r'^(Bytes|ByteArray|serde_bytes).*\bserialize', str(v.a[0]) if v.op == 'app' else '') is not None \
                and contains_path(v, SELF)
            good = good or (v is not None and v.op == 'app' and str(v.a[0]).endswith('serialize_bytes') and contains_path(v, SELF))
            c.check(good, 'ser', 'the bytes of a name are encoded as `%s`' % (show(v)[:160] if v is not None else '?'), A)
    d = F.items('FileName', 'Deserialize', 'deserialize')
    ys = [y for m in ('visit_map',) for z in F.inside(d[0], m) for y in F.inside(z, 'deserialize')] if d else []
    for y in ys:
        A = F.an(y, 'FileName::deserialize::bytes')
        for n, v, f in F.values(A):
            if v is None or v.op != 'agg' or v.a[1] == 'Err':
                c.check(v is not None and v.op == 'agg', 'de', 'the bytes of a name are decoded in an unknown way', A)
                continue
            t = v.a[3]
            if t.op == 'agg' and t.a[0] == '__DeserializeWith':
                t = t.a[3]
            s = subterms(t)
            good = t.op == 'fld' and any(z.op == 'app' and 'serde_bytes' in str(z.a[0]) and 'deserialize' in str(z.a[0]) for z in s) \
                and not any(z.op in ('app', 'upd') and z.a[0] in ('splice', 'store', 'sl', 'fill') for z in s)
            c.check(good, 'de', 'the bytes of a name are decoded as `%s`' % show(t)[:160], A)
    c.need(3, 'encodings of the bytes of a name')

    c.rule('C21.kinds', 'kinds of nodes and chunks are encoded under the names they have always had, and decoded to the same kind')
    for name in ENUM:
        t = F.ty.get(name)
        if not t:
            raise Anchor('the kind %s is not there any more' % name)
        byd = {int(v['discr']): v['name'] for v in t['variants']}
        A = F.one(name, 'Serialize', 'serialize')
        ser = {}
        for n, v, f in F.values(A):
            d = f.get(mk('disc', SELF))
            ok = v is not None and v.op == 'app' and str(v.a[0]).endswith('serialize_unit_variant') and type(d) is frozenset and len(d) == 1 and strc(v.a[4]) is not None
            c.check(ok, name + '.ser', '%s: not encoded as the name of the kind' % name, A, None, show(v)[:200] if v is not None else None)
            if ok:
                ser[byd.get(list(d)[0])] = strc(v.a[4])
        for k in ENUM[name]:
            c.check(k in ser.values(), '%s.%s.name' % (name, k), '%s: the name "%s" other versions look for is not used' % (name, k), A)
        names, ve = reader(c, F, name, 'visit_enum')
        if ve is None:
            continue
        de = {}
        for n, v, f in F.values(ve):
            if v is not None and v.op == 'agg' and v.a[1] == 'Ok' and v.a[3].op == 'agg':
                for k, val in f.items():
                    if k.op == 'disc' and type(val) is frozenset and len(val) == 1 and k.a[0].op == 'fld' and k.a[0].a[1] in ('0', 0):
                        de.setdefault(list(val)[0], set()).add(v.a[3].a[1])
        for k, w in ser.items():
            i = names.get(w)
            c.check(i is not None and de.get(i) == {k}, '%s.%s.decoded' % (name, k), '%s::%s is stored as "%s", which is decoded as %s' % (name, k, w, sorted(de.get(i, ())) or 'nothing'), ve)
    c.need(14, 'kinds')

    c.rule('C21.codes', 'the numbers of the kinds of nodes are the ones of the interface, in both directions')
    t = F.ty['FileType']
    byd = {int(v['discr']): v['name'] for v in t['variants']}
    for k, n_ in CODE.items():
        c.check(byd.get(n_) == k, 'discr.' + k, 'FileType::%s is not number %d any more: metadata of mounted files stored before is read wrongly' % (k, n_))
    for x in F.P.local:
        if x['closure'] or x['kind'] != 'item' or x['raw'].rsplit('::', 1)[-1] not in ('try_from', 'from'):
            continue
        tr = (x.get('impl_trait') or '').rsplit('::', 1)[-1].split('<')[0]
        if tr not in ('TryFrom', 'From'):
            continue
        me = (x.get('impl_self') or '').rsplit('::', 1)[-1]
        b = F.P.I[x['id']] if x.get('id') in F.P.I else None
        A = F.an(x, '%s::%s#%s' % (me, x['raw'].rsplit('::', 1)[-1], x['raw'].rsplit('::', 2)[-2])) if me in ('FileType', 'u8') else None
        if A is None:
            continue
        par = mk('init', A.argnames[0])
        if me == 'u8':
            at = A.framelist[0].body['locals'][1]
            if not (F.P.types[at].get('path') or '').endswith('::FileType'):
                continue
        for n, v, f in F.values(A):
            if me == 'u8':
                if v is disc_cast(v, par):
                    ok = True
                else:
                    d = f.get(mk('disc', par))
                    ok = v is not None and is_int(v) and type(d) is frozenset and d == frozenset([v.a[0]])
                c.check(ok, 'to', 'the number of a kind of node is `%s`' % (show(v) if v is not None else '?'), A, None, facts(f))
            else:
                d = f.get(par)
                if v is not None and v.op == 'agg' and v.a[1] == 'Ok' and v.a[3].op == 'agg':
                    c.check(type(d) is frozenset and d == frozenset([CODE.get(v.a[3].a[1])]), 'of', 'number %s gives FileType::%s' % (sorted(d) if type(d) is frozenset else '?', v.a[3].a[1]), A)
                else:
                    c.check(v is not None and v.op == 'agg' and v.a[1] == 'Err' and type(d) is tuple and set(d[1]) >= set(CODE.values()), 'none', 'a number of a kind of node is refused, or another one accepted', A, None, facts(f))
    c.need(8, 'numbers of kinds')

    c.rule('C21.layout', 'the record of a mounted file kept in memory has its parts where they have always been')
    t = F.ty.get('Metadata')
    c.check(t and t.get('reprc') and t.get('size') == 96, 'whole', 'Metadata is not a 96 byte record in declaration order any more')
    if t:
        for (fn, ty), off in zip(t['variants'][0]['fields'], t.get('offsets') or ()):
            want = LAYOUT.get(fn)
            c.check(want is not None and off == want[0], 'at.' + fn, 'the part `%s` of Metadata is at byte %s instead of %s' % (fn, off, want[0] if want else 'none'))
    c.need(10, 'parts of the record')


def disc_cast(v, par):
    w = v
    while w is not None and w.op == 'app' and (w.a[0] == 'trunc' or str(w.a[0]).startswith('cast')):
        w = w.a[1]
    return v if w is not None and w.op == 'disc' and w.a[0] is par else None


def facts(f):
    return '; '.join('%s: %s' % (show(k)[:100], sorted(v) if type(v) is frozenset else v) for k, v in list(f.items())[:8])


def _found(F, name, meth):
    r = [x for x in F.P.find(impl_self=name, name=meth, impl_trait='')]
    if not r:
        raise Anchor('%s::%s not found in the analysed crate' % (name, meth))
    return r[0]


def eqvt(s, t):
    return mk('eqv', s, t)


def truth_with(A, f, v, tv, t):
    """truth of t given facts f and that the outcome v is tv"""
    k = truth_of(A, f, t)
    if k is not None:
        return k
    w, pol = strip_not(v) if v is not None else (None, True)
    if w is not None and same_eqv(w, t):
        return tv == pol
    return None


def strip_not(v):
    """v as (term, polarity) without negations and comparisons with 0"""
    pol = True
    for _ in range(6):
        if v.op == 'not':
            v, pol = v.a[0], not pol
        elif v.op == 'app' and v.a[0] in ('not', '!'):
            v, pol = v.a[1], not pol
        elif v.op == 'eq0' and v.a[0].op in ('app', 'eqv'):
            v, pol = v.a[0], not pol
        else:
            break
    return v, pol


def truth_of(A, f, t):
    r = holds(A, f, t) if t.op != 'eqv' else None
    if r is not None:
        return r
    for k, val in f.items():
        if same_eqv(k, t):
            if type(val) is frozenset and val == frozenset([0]):
                return False
            if type(val) is frozenset and 0 not in val or type(val) is tuple and 0 in val[1]:
                return True
    return None


def same_eqv(k, t):
    if k is t:
        return True
    return t.op == 'eqv' and k.op == 'app' and k.a[0] == 'eqv' and {k.a[1], k.a[2]} == {t.a[0], t.a[1]}


def strc(t):
    """the text of a string constant"""
    s = show(t)
    return s[4:-1] if s.startswith('str(') and s.endswith(')') else None


def chain_of(v):
    """[(name, value)] of an encoding as a struct, in order"""
    if v.op != 'app' or not str(v.a[0]).endswith('::end'):
        return None
    r = []
    t = v.a[1]
    for _ in range(100):
        if t.op == 'upd' and str(t.a[0]).split('#')[0].endswith('::serialize_field'):
            k = strc(t.a[2])
            if k is None:
                return None
            r.append((k, t.a[3]))
            t = t.a[1]
        elif t.op == 'fld' and t.a[0].op == 'app' and str(t.a[0].a[0]).endswith('::serialize_struct'):
            return list(reversed(r))
        else:
            return None
    return None


def contains_path(t, base):
    return any(x is base for x in subterms(t))


def reader(c, F, name, visit='visit_map'):
    """(stored name -> number of the part, the analysed visitor)"""
    d = F.items(name, 'Deserialize', 'deserialize')
    if not d:
        raise Anchor('<%s as Deserialize>::deserialize not found in the analysed crate' % name)
    vs = [y for y in F.inside(d[0], 'visit_str')]
    vm = [y for y in F.inside(d[0], visit)]
    if not vs or not vm:
        c.check(False, name + '.reader', '%s: decoded in an unknown way' % name)
        return {}, None
    A = F.an(vs[0], name + '::names')
    arg = mk('init', A.argnames[-1])
    names = {}
    for n, v, f in F.values(A):
        if v is None or v.op != 'agg' or v.a[1] != 'Ok' or v.a[3].op != 'agg':
            continue
        m = re.search(r'(\d+)$', v.a[3].a[1] or '')
        if not m:
            continue
        for k, val in f.items():
            if k.op == 'app' and k.a[0] == 'eqv' and arg in k.a[1:] and (type(val) is tuple and 0 in val[1] or type(val) is frozenset and 0 not in val):
                s = strc(k.a[1] if k.a[2] is arg else k.a[2])
                if s is not None:
                    if s in names and names[s] != int(m.group(1)):
                        c.check(False, name + '.twice', '%s: the name "%s" stands for two parts' % (name, s), A)
                    names[s] = int(m.group(1))
    return names, F.an(vm[0], '%s::%s' % (name, visit), visit == 'visit_map')


def key_of(A, f):
    """number of the part whose name was read last"""
    for q, v in f.items():
        if q.op == 'disc' and type(v) is frozenset and len(v) == 1 and q.a[0].op == 'fld' and q.a[0].a[1] == 'Some.0':
            if any(x.op == 'fld' and x.a[1] == 'Some.0' and x.a[0].op == 'fld' and x.a[0].a[0].op == 'app' and 'next_key' in str(x.a[0].a[0].a[0]) for x in A.sources(q.a[0])):
                return list(v)[0]
    return None


def origins(A, t):
    """where the value of a part comes from: ('value', number of the part read) | ('missing', how) | ('other', text)"""
    out = set()
    seen = set()
    work = [(t, None, ())]
    while work:
        x, key, path = work.pop()
        if (x, key, path) in seen:
            continue
        seen.add((x, key, path))
        if x.op == 'phi' and x in A.phi_in:
            J = A.nodelist[x.a[0]]
            for s in J.ins.values():
                y = A.phi_on_edge(x, s)
                if y is None or y is x:
                    continue
                k = key_of(A, s.facts)
                work.append((y, k if k is not None else key, path))
        elif x.op == 'fld':
            work.append((x.a[0], key, path + ((x.a[1], x.a[2]),)))
        elif x.op == 'agg' and path:
            k = path[-1][0]
            if k in x.a[2]:
                work.append((x.a[3 + x.a[2].index(k)], key, path[:-1]))
        elif x.op == 'agg' and x.a[0] == 'Option' and x.a[1] == 'None':
            pass
        elif x.op == 'app' and 'next_value' in str(x.a[0]):
            out.add(('value', key))
        elif x.op == 'app' and 'missing_field' in str(x.a[0]):
            out.add(('missing', 'error'))
        elif x.op == 'app' and 'default' in str(x.a[0]).lower():
            out.add(('missing', 'default'))
        elif x.op == 'bot':
            pass
        else:
            out.add(('other', show(x)[:80]))
    return out
