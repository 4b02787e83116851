#!/usr/bin/env python3
"""python3 check.py <property id>: decides one property of /repo's current tree."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.dont_write_bytecode = True
import build
import core
import engine
import registry


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    fn, note = registry.RULES[pid]
    viols = []
    c = None
    try:
        facts = build.facts()
        c = core.Ctx(facts, pid)
        c.tier = tier
        try:
            fn(c)
        except core.Anchor as e:
            c.rule('anchor', 'every public operation and type a rule is anchored to exists')
            c.viol('anchor|%s' % e, 'anchor missing: %s' % e)
        except engine.Fail as e:
            c.rule('analysis', 'the analysis reaches a fixpoint within its bounds for every root')
            c.viol('fail|%s' % e, 'the code could not be analysed: %s' % e)
        viols = c.viols
    except build.BuildError as e:
        print('ERROR: cannot build the facts of /repo: %s' % e)
        return 2
    known = {}
    kp = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kp):
        for k in json.load(open(kp)).get('known', []):
            if k['property'] == pid:
                known[k['key']] = k
    new = [v for v in viols if v['key'] not in known]
    hit = [v for v in viols if v['key'] in known]
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': note + ' Rules applied: ' + ' | '.join('%s: %s' % kv for kv in c.rules.items()),
            'rule': 'one obligation per (rule, program construct) matched in the interprocedural flow graph of the current tree',
            'obligations': sum(c.obl.values()),
            'discharged': max(0, sum(c.obl.values()) - len(viols)),
            'obligations_per_rule': c.obl,
            'roots_analysed': sorted(c.roots),
            'functions_analysed': len({i for A in c.roots.values() for i in A.inlined}),
            'flow_graph_nodes': sum(len(A.alive) for A in c.roots.values()),
            'call_sites': sum(len(n.events) for A in c.roots.values() for n in A.alive),
            'crate_functions_with_bodies': len(c.P.local),
            'samples': c.samples[:60],
        },
        'assumptions': ['the transfer functions of sa/models.py describe the std / ic-stable-structures operations they name',
                        'unresolved external calls are deterministic functions of the values they can read'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    if hit:
        ev['coverage']['known_findings'] = [v['key'] for v in hit]
    if not os.environ.get('SA_NOEVIDENCE'):
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for v in hit:
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, v['msg'][:300], v['key']))
    print('%s: %d obligations over %d roots, %d flow-graph nodes, %.1f s: %s' % (
        pid, sum(c.obl.values()), len(c.roots), ev['coverage']['flow_graph_nodes'], time.time() - t0,
        'ok' if not new else '%d violation(s)' % len(new)))
    if new:
        rp = os.path.join(HERE, 'evidence', pid + ('.report.json' if not os.environ.get('SA_NOEVIDENCE') else '.scratch.json'))
        json.dump(new, open(rp, 'w'), indent=1)
        for v in new:
            print('  %s [%s]' % (v['msg'], v['key']))
            for k in ('root', 'where', 'extra', 'event'):
                if v.get(k):
                    print('      %s: %s' % (k, str(v[k])[:400]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
