#!/usr/bin/env python3
"""check.py Cnn -- decide a property of properties.jsonl on /repo's working tree.

Exit 0: it held on everything explored; exit 1 and a VIOLATION line: it is
broken.  VERIF_TIER is quick or thorough, VERIF_SEED seeds every choice."""
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import components as co   # noqa: E402
import plan               # noqa: E402
import tla                # noqa: E402


def findings():
    out = []
    with open(os.path.join(HERE, 'known-findings.jsonl')) as fh:
        for line in fh:
            if line.strip():
                out.append(json.loads(line))
    return [f for f in out if f.get('status') == 'known']


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    parts, violations = [], []
    try:
        ctx = co.Ctx(prop, tier, scratch)
        for part in plan.PLAN[prop]:
            t1 = time.time()
            try:
                out = part(ctx)
            except tla.Machinery:
                # once more, in case the machine was short of something
                sys.stderr.write(traceback.format_exc())
                out = part(ctx)
            out['name'] = part.name
            out['wall'] = round(time.time() - t1, 1)
            parts.append(out)
            mine = [v for v in out['violations'] if v['prop'] in (prop, 'stop')]
            violations += mine
            if mine and tier == 'quick':
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = findings()
    shown = {}
    fresh = []
    for v in violations:
        for f in known:
            if f['property'] == prop and v.get('finding') == f['id']:
                shown[f['id']] = f
                break
        else:
            fresh.append(v)
    for p in parts:
        for f in known:
            if f['property'] == prop and f['id'] in p['tags']:
                shown[f['id']] = f
    for f in shown.values():
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, f['id'], f['what']))
    write_evidence(prop, tier, parts, fresh, time.time() - t0)
    if fresh:
        d = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        seen = set()
        for i, v in enumerate(fresh):
            key = v['clause']
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 5:
                break
            path = os.path.join(d, '%s-%d.json' % (prop, len(seen)))
            with open(path, 'w') as fh:
                json.dump(v, fh, indent=1, default=str)
            print('  %s: %s (case %s, %s) expected %s, got %s' % (
                v['prop'], v['clause'], v.get('id'), v.get('where', ''), v.get('want'), v.get('got')))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s held: %s' % (prop, '; '.join('%s: %d states, %d traces, %.1f s' % (
        p['name'], p['states'], p['traces'], p['wall']) for p in parts)))
    return 0


def write_evidence(prop, tier, parts, fresh, wall):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tags = {}
    for p in parts:
        for t, n in p['tags'].items():
            tags[t] = tags.get(t, 0) + n
    samples = [s for p in parts for s in p['samples']][:6]
    cov = {'states': sum(p['states'] for p in parts),
           'transitions': sum(p['transitions'] for p in parts),
           'traces_validated_against_impl': sum(p['traces'] for p in parts),
           'samples': samples,
           'rules_reached': tags,
           'components': [{k: p[k] for k in p if k not in ('violations', 'samples', 'tags', 'seen')}
                          for p in parts]}
    ev = {'property': prop, 'tier': tier, 'seed': co.SEED, 'level': 'model_checking',
          'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(fresh),
          'assumptions': plan.ASSUMPTIONS}
    path = os.path.join(HERE, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.replace(path + '.tmp', path)


if __name__ == '__main__':
    sys.exit(main())
