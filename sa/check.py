#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on the current tree of /repo."""
import os, sys, json, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
import build
from engine import Facts, Limit
import core

def load():
    import importlib, glob
    for f in sorted(glob.glob(os.path.join(HERE, 'props_*.py'))):
        importlib.import_module(os.path.basename(f)[:-3])

def known():
    """{property: {key: text}} of the findings which are recorded but not repaired"""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property='):
                head, _, text = l.partition(' -- ')
                f = dict(x.split('=', 1) for x in head[len('finding: '):].split(' ', 1))
                out.setdefault(f['property'], {})[f['key']] = text
    return out

def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
        args = [a for a in args if a != tier]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    load()
    pid = args[0]
    t0 = time.time()
    try:
        files = build.facts()
    except build.BuildError as x:
        print(x)
        print('NO ANSWER: the tree or the extractor does not build')
        return 2
    facts = Facts(files)
    fn, rule = core.PROPS[pid]
    ctx = core.Ctx(pid, facts, tier)
    try:
        fn(ctx)
    except core.Missing as x:
        ctx.violate('anchor', 'the analysis lost its anchor: ' + str(x))
    except Limit as x:
        if any(k not in known().get(pid, {}) for k in ctx.violations):
            print('the analysis stopped early: ' + str(x))
        else:
            print('NO ANSWER: ' + str(x))
            traceback.print_exc()
            return 2
    kn = known().get(pid, {})
    new = [v for v in ctx.violations.values() if v['key'] not in kn]
    old = [v for v in ctx.violations.values() if v['key'] in kn]
    done = sum(1 for _, ok in ctx.obligations if ok)
    cov = {
        'explanation': rule,
        'obligations': len(ctx.obligations), 'discharged': done,
        'functions_interpreted': len(ctx.functions), 'basic_blocks': ctx.blocks, 'call_sites_evaluated': ctx.calls,
        'events': dict(sorted(ctx.events.items())),
        'functions': sorted(ctx.functions)[:400],
        'samples': [('holds: ' if ok else 'fails: ') + w for w, ok in ctx.obligations[:60]],
    }
    out = os.environ.get('SA_EVIDENCE') or VERIF      # only tools/try.py sets it
    os.makedirs(os.path.join(out, 'evidence'), exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': len(new),
          'assumptions': ['rustc (nightly) parses, resolves and type-checks the tree as the stable compiler does; the facts are the MIR before borrow checking of every local body',
                          'library calls behave as modelled in sa/engine.py and sa/fsmodel.py'] + ctx.assume}
    with open(os.path.join(out, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not ctx.obligations:
        print('NO ANSWER: nothing was examined')
        return 2
    for v in old:
        print(f"KNOWN-FINDING: property={pid} {v['key']}: {kn[v['key']]}")
    if new:
        os.makedirs(os.path.join(out, 'out'), exist_ok=True)
        rp = os.path.join(out, 'out', pid + '.json')
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'rule': rule, 'violations': new}, f, indent=1)
        for v in new:
            print(f"{pid}: {v['key']}: {v['msg']}" + (f" [{v['at']}]" if v['at'] else ''))
            for s in v['trail'][-8:]:
                print('    ' + s)
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    print(f"{pid}: holds; {done} obligations over {len(ctx.functions)} functions, {ctx.calls} call evaluations, {time.time() - t0:.1f} s")
    return 0

if __name__ == '__main__':
    sys.exit(main())
