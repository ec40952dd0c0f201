"""run.py <property> [--tier quick|thorough] [--replay FILE]

exit 0: held on everything explored; 1: VIOLATION line; other: harness error."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402  pylint: disable=wrong-import-position

sys.dont_write_bytecode = True
sys.path.insert(1, core.REPO)
if core.WHEELS not in sys.path:
    sys.path.append(core.WHEELS)


def load_known(prop):
    path = os.path.join(core.VERIF, 'known_findings.json')
    with open(path) as fh:
        data = json.load(fh)
    return [k for k in data['known'] if k['property'] == prop]


def replay(prop, mod, path):
    core.setup_process()
    with open(path) as fh:
        rec = json.load(fh)
    subs = {s.name: s for s in mod.SUBS}
    if rec.get('rerun_only'):
        r = rec['rerun']
        results, errors = core.generate(
            prop, mod, r['tier'], r['seed'], r['workers'], 600)
        bad = [x['fail'] for x in results if x['fail']]
        if errors:
            print(errors, file=sys.stderr)
            return 2
        if bad:
            print(bad[0]['text'])
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        print('no violation')
        return 0
    _, v = core.run_case(subs[rec['sub']], rec['case'])
    if v is not None:
        print('%s/%s: %s' % (prop, rec['sub'], v))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('no violation')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--sub')
    a = ap.parse_args()
    prop = a.property
    mod = importlib.import_module('props.' + prop.lower())
    import pyopenapi
    where = os.path.realpath(pyopenapi.__file__)
    if not where.startswith(os.path.realpath(core.REPO) + os.sep):
        print('pyopenapi was imported from %s' % where, file=sys.stderr)
        return 2
    if a.replay:
        return replay(prop, mod, a.replay)

    seed = a.seed if a.seed is not None else int(
        os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    workers = a.workers or 8
    wall = 240 if a.tier == 'quick' else 780
    if a.sub:
        mod.SUBS = [s for s in mod.SUBS if s.name == a.sub]
    for s in mod.SUBS:
        s.n[a.tier] = int(s.n[a.tier] * a.scale)

    # known findings first: they must still be what they were
    known_lines = []
    core.setup_process()
    for k in load_known(prop):
        subs = {s.name: s for s in mod.KNOWN_SUBS}
        _, v = core.run_case(subs[k['sub']], k['case'])
        if v is not None:
            known_lines.append('KNOWN-FINDING: property=%s %s' % (
                prop, k['what']))

    results, errors = core.generate(prop, mod, a.tier, seed, workers, wall)
    errors += [r['error'] for r in results if r['error']]
    fails = [r['fail'] for r in results if r['fail']]

    total, cut, labels, per, samples = 0, 0, {}, {}, []
    nontriv = set()
    for s in mod.SUBS:
        n = 0
        nts = set()
        for r in results:
            st = r['subs'].get(s.name)
            if not st:
                continue
            n += st['n']
            cut += st['cut']
            nts |= st['nt']
            for k, c in st['labels'].items():
                labels['%s.%s' % (s.name, k)] = labels.get(
                    '%s.%s' % (s.name, k), 0) + c
            if len([x for x in samples if x['sub'] == s.name]) < 2:
                samples += [{'sub': s.name, 'case': x}
                            for x in st['samples'][:1]]
        per[s.name] = {'evaluations': n, 'distinct_nontrivial': len(nts)}
        total += n
        nontriv |= {(s.name, h) for h in nts}

    replay_path = None
    text = None
    if fails:
        best = min(fails, key=lambda f: f['size'])
        text = '%s/%s: %s' % (prop, best['sub'], best['text'])
        rec = {'property': prop, 'sub': best['sub'], 'case': best['case'],
               'message': best['text'], 'rerun': best['rerun']}
        rdir = os.path.join(core.VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        replay_path = os.path.join(rdir, '%s-%s.json' % (
            prop, core.digest([best['sub'], best['case']])))
        with open(replay_path, 'w') as fh:
            json.dump(rec, fh, indent=1)
        rc = subprocess.call(
            [sys.executable, '-W', 'ignore', os.path.abspath(__file__), prop,
             '--replay', replay_path], stdout=subprocess.DEVNULL)
        if rc != 1:
            # the case alone is not enough (state carried between cases):
            # the replay is the whole run
            rec['rerun_only'] = True
            with open(replay_path, 'w') as fh:
                json.dump(rec, fh, indent=1)

    evidence = {
        'property': prop, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total, 'distinct_nontrivial': len(nontriv),
            'rule': mod.RULE, 'samples': samples, 'per_sub_check': per,
            'classes': dict(sorted(labels.items())),
            'not_run_because_of_time': cut, 'workers': workers,
            'exhaustive': False,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fails),
    }
    edir = os.path.join(core.VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1, sort_keys=True, ensure_ascii=False,
                  default=repr)

    for line in known_lines:
        print(line)
    if fails:
        print(text)
        print('VIOLATION property=%s replay=%s' % (prop, replay_path))
        return 1
    if errors:
        print('\n'.join(e[-3000:] for e in errors[:2]), file=sys.stderr)
        return 2
    print('%s: held on %d cases (%d distinct non-trivial) in %.1f s%s' % (
        prop, total, len(nontriv), time.time() - t0,
        ', %d not run because of time' % cut if cut else ''))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
        sys.exit(2)
