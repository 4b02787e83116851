"""behaviour-preserving edits: every check has to stay quiet on each (development only; scratch copies under /tmp)
-m: instead the bugs of mutants.txt, printing which checks notice each
python3 tools/refactor.py [id ...]   (ids: of the edits; with C.. ids: only these checks)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedlib
from seedlib import SR, sh, scratch, checks
R = {}
PROP = {}
def ref(i, *edits):
    R[i] = edits
def bug(i, prop, *edits):
    R[i] = edits
    PROP[i] = prop

FS, SHF, DIR, FDT, FIL, STA, TRA = 'fs.rs', 'runtime/structure_helpers.rs', 'runtime/dir.rs', 'runtime/fd.rs', 'runtime/file.rs', 'storage/stable.rs', 'storage/transient.rs'
MP, PC, AL, CI, TY = 'storage/metadata_provider.rs', 'storage/ptr_cache.rs', 'storage/allocator.rs', 'storage/chunk_iterator.rs', 'storage/types.rs'
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mutants.txt' if '-m' in sys.argv else 'refactors.txt')).read())

def main():
    a = sys.argv[1:]
    cs = [x for x in a if x in seedlib_rules()]
    ids = [x for x in a if x not in cs] or list(R)
    tests = '-t' in ids
    keep = '-a' in ids          # only apply the edit to the scratch copy and build it
    ids = [x for x in ids if x not in ('-t', '-a', '-m')] or list(R)
    for i in ids:
        scratch()
        for f, o, n in R[i]:
            p = '%s/stable-fs/src/%s' % (SR, f)
            s = open(p).read()
            k = s.count(o)
            assert k == 1, (i, f, k, o)
            open(p, 'w').write(s.replace(o, n))
        if keep:
            print(checks(['C01']))
            return
        if tests:
            bad, log = seedlib.tests()
            print(i, 'tests', 'ok' if not bad else 'FAIL %s %s' % (bad[:3], log[-1200:]), flush=True)
            if bad:
                continue
        r = checks(cs or None)
        if 'build' in r:
            print(i, 'BUILD', r['build'], flush=True)
            continue
        bad = {k: v for k, v in r.items() if v[0] != 0}
        if i in PROP:
            print(i, PROP[i], 'CAUGHT' if PROP[i] in bad else 'missed' if not bad else 'OTHER', ' '.join('%s%s' % (k, '' if v[0] == 1 else '!%s' % v[0]) for k, v in sorted(bad.items())), flush=True)
            continue
        print(i, 'quiet' if not bad else 'ALARM %s' % ' '.join(sorted(bad)), flush=True)
        for k, v in bad.items():
            for l in (v[1] if isinstance(v[1], list) else [v[1]])[:3]:
                print('    ', k, l[:330], flush=True)
    scratch()

def seedlib_rules():
    sys.path.insert(0, seedlib.V + '/sa')
    import registry
    return registry.RULES
if __name__ == "__main__":
    main()
