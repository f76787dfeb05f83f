"""The parts checks are made of.  Each returns a dict
   states, transitions, traces, samples, violations [, tags, notes]
A violation is a dict prop, clause, text, replay (what to rerun)."""
import json
import os
import random
import sys

import drivers
import tla
from tla import VERIF

sys.path.insert(0, os.path.join(VERIF, 'harness'))
import gen    # noqa: E402

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Ctx(object):
    def __init__(self, prop, tier, scratch):
        self.prop, self.tier, self.scratch = prop, tier, scratch
        self.n = 0

    def dir(self, name):
        self.n += 1
        d = os.path.join(self.scratch, '%s%d' % (name, self.n))
        os.makedirs(d)
        return d


def empty():
    return {'states': 0, 'transitions': 0, 'traces': 0, 'samples': [], 'violations': [],
            'tags': {}, 'seen': {}}


def stops(failed):
    """failures of a driver as violations"""
    return [{'prop': 'stop', 'clause': f['error'].split('\n')[0][:200],
             'id': f['id'], 'replay': f} for f in failed]


def files_def(files):
    return 'AllFiles == <<%s>>' % ', '.join('"%s"' % f for f in files)


def trace_check(ctx, families, seconds, module='SnobalTrace', kind='trace', steps=10**9,
                offset=0, cases=None, alarm=40):
    """executions of the code checked against the model, step by step"""
    d = ctx.dir('trace')
    n = drivers.CORES
    base = SEED * 1000003 + offset
    hs = []
    for i in range(n):
        job = {'kind': kind, 'first': base + i, 'stride': n, 'families': families,
               'seconds': min(seconds, 1e9), 'steps': steps // n, 'alarm': alarm}
        if cases is not None:
            job['cases'] = cases[i::n]
            if not job['cases']:
                continue
        hs.append(drivers.start(job, d, 'p%d' % i))
    files, done, failed = drivers.finish(hs, min(seconds * 3 + 90, 700))
    out = empty()
    out['violations'] += stops(failed)
    if not files:
        return out
    r = tla.run(module, 'SPECIFICATION Spec\nCONSTANT Files <- AllFiles\nCHECK_DEADLOCK FALSE\n',
                d, defs=files_def(files), timeout=800)
    if r.error:
        raise tla.Machinery('%s: %s' % r.error)
    byid = {}
    if cases is not None:
        byid = {c['id']: c for c in cases}
    ends = 0
    for x in r.lines:
        if x[0] == 'END':
            ends += 1
            for t in x[3]:
                out['tags'][t] = out['tags'].get(t, 0) + 1
                if t not in out['seen']:
                    out['seen'][t] = x[1]
        elif x[0] == 'V':
            _, ident, dd, k, b = x
            out['violations'].append(
                {'prop': b[0], 'clause': b[1], 'want': b[2], 'got': b[3], 'id': ident,
                 'where': 'data step %s, run step %s' % (dd, k),
                 'replay': {'module': module, 'kind': kind, 'families': families,
                            'stride': n, 'case': byid.get(ident), 'seed': ident}})
    for x in done:
        for prop, clause, want, got, case in x['bad']:
            out['violations'].append({'prop': prop, 'clause': clause, 'want': want, 'got': got,
                                      'id': case['id'], 'replay': {'kind': kind, 'case': case}})
    out['skipped'] = sum(x['skipped'] for x in done)
    total = sum(x['cases'] - len(x['failed']) - x['untraced'] for x in done)
    if ends != total:
        raise tla.Machinery('%d of %d traces checked' % (ends, total))
    out['states'] = r.distinct
    out['transitions'] = r.generated
    out['traces'] = total
    out['run_steps'] = sum(x['steps'] for x in done)
    out['agree'] = sum(x['agree'] for x in done)
    out['tlc_s'] = round(r.wall, 1)
    return out


def describe(sc):
    return {'id': sc['id'], 'steps_min': sc['cfg']['steps'], 'thresholds': sc['cfg']['thr'],
            'initial': sc['ic'], 'first_record': sc['data'][0], 'records': len(sc['data'])}


def T(families, quick=20000, thorough=400000, **kw):
    """a fixed number of run steps (the time limit is a safety net)"""
    def go(ctx):
        n = quick if ctx.tier == 'quick' else thorough
        out = trace_check(ctx, families, 60 if ctx.tier == 'quick' else 300, steps=n, **kw)
        fam = families[(SEED * 1000003) // drivers.CORES % len(families)]
        out['samples'].append(describe(gen.scenario(SEED * 1000003 + kw.get('offset', 0), fam)))
        return out
    go.name = 'trace validation (SnobalTrace)'
    return go


def replay(ctx, kind, cases, d, alarm=60, timeout=300, seconds=1e9):
    """cases with their expected outcome, carried out by the code"""
    hs = []
    n = drivers.CORES
    for i in range(n):
        if cases[i::n]:
            hs.append(drivers.start({'kind': kind, 'cases': cases[i::n], 'alarm': alarm,
                                     'seconds': seconds}, d, '%s%d' % (kind, i)))
    files, done, failed = drivers.finish(hs, timeout)
    out = empty()
    out['violations'] += stops(failed)
    for x in done:
        out['traces'] += x['cases'] - x['skipped']
        for prop, clause, want, got, case in x['bad']:
            out['violations'].append({'prop': prop, 'clause': clause, 'want': want, 'got': got,
                                      'id': case['id'], 'replay': {'kind': kind, 'case': case}})
    out['skipped'] = sum(x['skipped'] for x in done)
    out['run_steps'] = sum(x['steps'] for x in done)
    out['tags'] = {kind: out['traces']}
    return out, files


def enumerate_cases(ctx, module, cfg, d, **kw):
    """behaviours of a specification, printed by TLC as CASE lines"""
    r = tla.run(module, cfg, d, **kw)
    if r.error:
        raise tla.Machinery('%s: %s %s' % (module, r.error[0], r.error[1]))
    return r, [x[1:] for x in r.lines if x[0] == 'CASE']


def sample(cases, n, seed):
    if len(cases) <= n:
        return cases
    return random.Random(seed).sample(cases, n)


def finish(out, r, cases):
    out['states'] += r.distinct
    out['transitions'] += r.generated
    out['tlc_s'] = round(r.wall, 1)
    out['enumerated'] = len(cases)
    if cases:
        out['samples'].append(cases[0])
    return out


def LAYERS(ctx):
    d = ctx.dir('layers')
    deep = 3 if ctx.tier == 'thorough' else 2
    r, cs = enumerate_cases(ctx, 'Layers', 'SPECIFICATION Spec\nCONSTANT Depth = %d\n'
                            'INVARIANTS Rule Emit\nCHECK_DEADLOCK FALSE\n' % deep, d)
    cases = [{'id': 'layers-%d' % i, 'max_z0': c[0], 'thr': c[1], 'hist': c[2]}
             for i, c in enumerate(sorted(cs, key=str))]
    out, _ = replay(ctx, 'layers', sample(cases, 40000, SEED), d)
    return finish(out, r, cases)


LAYERS.name = 'layer rule, all behaviours of Layers.tla replayed'


PACKS = ['bare', 'thin', 'edge', 'two', 'ripe', 'cold', 'dense']
MENU = ['night', 'frost', 'sun', 'foehn', 'rain', 'snow', 'wetsnow', 'dump', 'calm', 'flurry']
MC_CFG = [dict(max_h2o=.01, max_z0=.25, thr=[60., 10., 1.], z_u=5., z_t=4., relative=False),
          dict(max_h2o=.04, max_z0=.1, thr=[30., 10., 2.], z_u=5., z_t=4., relative=True),
          dict(max_h2o=0., max_z0=.4, thr=[80., 40., 5.], z_u=5., z_t=6., relative=False)]


def cover(cases, n, seed):
    """n cases: first some for every rule reached, then any"""
    r = random.Random(seed)
    cases = sorted(cases, key=str)
    r.shuffle(cases)
    count, chosen, rest = {}, [], []
    for c in cases:
        if any(count.get(t, 0) < 6 for t in c[1]):
            chosen.append(c)
            for t in c[1]:
                count[t] = count.get(t, 0) + 1
        else:
            rest.append(c)
    return (chosen + rest)[:n]


def M(*invariants):
    """the bounded instance explored exhaustively, some of its behaviours
    carried out by the code and compared with it"""
    def go(ctx):
        quick = ctx.tier == 'quick'
        total = empty()
        total.update(enumerated=0, run_steps=0, tlc_s=0, ends_agree=0)
        for v in ([1 + SEED % 3] if quick else [1, 2, 3]):
            d = ctx.dir('mc')
            deep = 2 if quick or v != 1 else 3
            quoted = lambda xs: '{%s}' % ', '.join('"%s"' % x for x in xs)
            r, _ = enumerate_cases(
                ctx, 'SnobalMC', 'SPECIFICATION SpecH\nCONSTANTS\n Config <- MCConfig\n Packs <- MCPacks\n'
                ' Weather <- MCWeather\n Dts <- MCDts\n NormalPerData = 1\n MaxData = %d\n Packs_ = %s\n'
                ' Weather_ = %s\n Variant = %d\nINVARIANTS %s Emit\nCHECK_DEADLOCK FALSE\n'
                % (deep, quoted(PACKS), quoted(MENU), v, ' '.join(invariants)), d)
            packs = {x[1]: x[2] for x in r.lines if x[0] == 'PACK'}
            menu = {x[1]: x[2] for x in r.lines if x[0] == 'WEATHER'}
            behaviours = [x[1:] for x in r.lines if x[0] == 'CASE']
            total['states'] += r.distinct
            total['transitions'] += r.generated
            total['enumerated'] += len(behaviours)
            total['tlc_s'] += r.wall
            reached = set(t for b in behaviours for t in b[1])
            cfg = dict(MC_CFG[v - 1], steps=[60, 30, 15] if v == 1 else [30, 15, 5], nd=1, elevation=2061., z_g=.5, z_0=.005)
            cases = []
            for hist, tags, end, n in cover(behaviours, 500 if quick else 6000, SEED):
                p = {k: tla.f64(x) for k, x in packs[hist[0]].items()}
                cases.append({
                    'id': '%d-%s' % (v, '-'.join(hist)), 'cfg': cfg, 'ic': p,
                    'data': [{k: tla.f64(x) for k, x in menu[y].items()} for y in hist[1:]],
                    'want': dict({k: tla.f64(x) for k, x in end.items()}, layer_count=n)})
            out = trace_check(ctx, None, 1e9, kind='behaviour', cases=cases)
            for k in ('states', 'transitions', 'traces', 'run_steps'):
                total[k] += out[k]
            total['violations'] += out['violations']
            total['ends_agree'] += out['agree']
            for t, k in out['tags'].items():
                total['tags'][t] = total['tags'].get(t, 0) + k
            for t in reached:
                total['tags']['MC:' + t] = total['tags'].get('MC:' + t, 0) + 1
            if cases:
                total['samples'].append({'behaviour': cases[0]['id'], 'end': cases[0]['want']})
        total['tlc_s'] = round(total['tlc_s'], 1)
        return total
    go.name = 'Snobal.tla explored exhaustively (%s), behaviours replayed' % ' '.join(invariants)
    return go


def PRECIP(ctx):
    d = ctx.dir('precip')
    r, cs = enumerate_cases(ctx, 'Precip', 'SPECIFICATION Spec\nINVARIANTS Consistent12 Emit\n'
                            'CHECK_DEADLOCK FALSE\n', d)
    cases = [{'id': 'precip-%d' % i, 'r': c[0], 'want': c[1]}
             for i, c in enumerate(sorted(cs, key=str))]
    out, _ = replay(ctx, 'precip', cases, d)
    return finish(out, r, cases)


PRECIP.name = 'precipitation split, all cases of Precip.tla replayed'


def CACHE(ctx):
    d = ctx.dir('cache')
    deep = 5 if ctx.tier == 'thorough' else 4
    total = None
    for places in (['t_a', 't_g'], ['t_s_0', 't_s_l']):
        dd = ctx.dir('cache')
        r, cs = enumerate_cases(ctx, 'Cache', 'SPECIFICATION Spec\nCONSTANTS\n Depth = %d\n'
                                ' Places = {"%s", "%s"}\nINVARIANTS NeverStale ReadsRight Emit\n'
                                'CHECK_DEADLOCK FALSE\n' % (deep, places[0], places[1]), dd)
        cases = [{'id': 'cache-%s-%d' % (places[0], i), 'places': places, 'hist': c[0]}
                 for i, c in enumerate(sorted(cs, key=str))]
        out, _ = replay(ctx, 'cache', sample(cases, 20000, SEED), dd)
        finish(out, r, cases)
        if total is None:
            total = out
        else:
            for k in ('states', 'transitions', 'traces', 'run_steps', 'enumerated'):
                total[k] += out[k]
            total['violations'] += out['violations']
    return total


CACHE.name = 'remembered saturation values, all histories of Cache.tla replayed'


def GRID(ctx):
    shapes = [((4, 2, 1), 1, 1), ((4, 2, 1), 2, 1), ((6, 2, 1), 1, 1), ((4, 4, 1), 1, 2),
              ((4, 2, 2), 2, 2)]
    quick = ctx.tier == 'quick'
    total = empty()
    total.update(enumerated=0, run_steps=0, skipped=0)
    cases = []
    d = ctx.dir('grid')
    for lens, normals, data in shapes:
        small = lens[0] // lens[2] * normals * data <= 4
        dd = ctx.dir('grid')
        cfg = ('SPECIFICATION Spec\nCONSTANTS\n Len0 = %d\n Len1 = %d\n Len2 = %d\n Normals = %d\n'
               ' DataSteps = %d\nINVARIANTS Tiles Aligned AllDelivered Intervals OneRecord Emit\n%s'
               'CHECK_DEADLOCK FALSE\n' % (lens + (normals, data, 'PROPERTIES Terminates Refines\n' if small else '')))
        big = lens[0] // lens[2] * normals * data > 4
        extra = ()
        if big:
            extra = ('-simulate', 'num=%d' % (400 if quick else 4000), '-depth', '60',
                     '-seed', str(SEED))
        r, cs = enumerate_cases(ctx, 'StepGrid', cfg, dd, extra=extra,
                                workers=1 if big else 4)
        cs = [list(x) for x in {json.dumps(c): c for c in cs}.values()]
        total['states'] += r.distinct
        total['transitions'] += r.generated
        for c in sorted(cs, key=str):
            cases.append({'id': 'grid-%d' % len(cases), 'lens': list(lens), 'normals': normals,
                          'first': c[0], 'run': c[1], 'outs': c[2], 'variant': len(cases) % 20})
    out, _ = replay(ctx, 'grid', sample(cases, 4000 if quick else 60000, SEED), d)
    for k in ('violations', 'traces', 'run_steps', 'skipped', 'tags'):
        total[k] = out[k]
    total['enumerated'] = len(cases)
    total['samples'].append(cases[0])
    return total


GRID.name = 'division of data steps, behaviours of StepGrid.tla replayed'


def PROOF(module, claims):
    """invariants of a module proved inductive by Apalache, for all integers"""
    def run(ctx):
        total = empty()
        total['obligations'] = 0
        if ctx.tier == 'quick':
            total['notes'] = 'thorough tier only'
            return total
        for args in [('Init', 'Ind', 0), ('IndInit', 'Ind', 1)] + [('IndInit', c, 0) for c in claims]:
            d = ctx.dir('proof')
            tla.apalache(module, d, *args)
            total['obligations'] += 1
        return total
    run.name = 'inductive invariant of %s.tla proved by Apalache' % module
    return run


def PAIRS(families, quick=20000, thorough=400000, offset=500000):
    def go(ctx):
        return trace_check(ctx, families, 60 if ctx.tier == 'quick' else 300, module='OutputTrace',
                           kind='pairs', steps=quick if ctx.tier == 'quick' else thorough,
                           offset=offset)
    go.name = 'pairs of executions (OutputTrace)'
    return go


def FUN(n=480, deep=8000):
    """the physical relations called directly, at random arguments"""
    def go(ctx):
        k = n if ctx.tier == 'quick' else deep
        cases = [{'id': 'fun-%d' % (SEED * 100003 + i)} for i in range(k)]
        out = trace_check(ctx, None, 1e9, module='FunTrace', kind='fun', cases=cases)
        out['samples'].append({'calls': cases[0]['id'], 'each': '51 calls'})
        return out
    go.name = 'direct calls of the physical relations (FunTrace)'
    return go


def settle(violations):
    """the part of the configuration blamed for a difference can be so by
    coincidence: what few of the runs say, the majority decides"""
    runs = {}
    for v in violations:
        if v['prop'] != 'C19':
            runs.setdefault(v['prop'], set()).add(v['id'])
    if not runs:
        return
    most = max(runs, key=lambda p: len(runs[p]))
    for v in violations:
        if v['prop'] in runs and 4 * len(runs[v['prop']]) < len(runs[most]):
            v['prop'] = most


def FILES(n=140, longer=100, deep=1500):
    """file runs, one per behaviour of Window.tla"""
    def go(ctx):
        quick = ctx.tier == 'quick'
        d = ctx.dir('window')
        cfg = ('SPECIFICATION Spec\nCONSTANT MaxRows = %d\nINVARIANTS InWindow InOrder ClockRight Complete '
               'Refused OrderFree Emit\n%sCHECK_DEADLOCK FALSE\n')
        r, cs = enumerate_cases(ctx, 'Window', cfg % (4, 'PROPERTY Terminates\n'), d)
        r2, ls = enumerate_cases(ctx, 'Window', cfg.replace('Spec\n', 'SpecMore\n') % (18, ''), ctx.dir('window'), workers=1,
                                 extra=('-simulate', 'num=%d' % (longer if quick else deep), '-depth', '60',
                                        '-seed', str(SEED)))
        r3, vs = enumerate_cases(ctx, 'Window', cfg.replace('Spec\n', 'SpecLong\n') % (600 if quick else 2400, ''),
                                 ctx.dir('window'), workers=1,
                                 extra=('-simulate', 'num=%d' % (4 if quick else 12), '-depth', '9999',
                                        '-seed', str(SEED)))
        # a window with no interval is one that is refused
        cs = sorted(cs, key=str)
        cs = (sample([c for c in cs if c[3]], n if quick else deep, SEED)
              + sample([c for c in cs if not c[3]], n if quick else deep, SEED) + ls + vs)
        cases = [{'id': 'file-%d-%d' % (SEED, i), 'order': c[0], 'start': c[1], 'stop': c[2], 'fed': c[3],
                  'at': c[4]}
                 for i, c in enumerate(cs)]
        out = trace_check(ctx, None, 1e9, module='FileTrace', kind='window', cases=cases)
        settle(out['violations'])
        out['states'] += r.distinct + r2.generated + r3.generated
        out['transitions'] += r.generated + r3.generated
        out['enumerated'] = len(cs)
        out['samples'].append(cases[0])
        return out
    go.name = 'file runs, behaviours of Window.tla (FileTrace)'
    return go


def CONFIG(ctx):
    """file runs, one per configuration of Config.tla"""
    quick = ctx.tier == 'quick'
    d = ctx.dir('config')
    r, cs = enumerate_cases(ctx, 'Config', 'SPECIFICATION Spec\nCONSTANT Deviations = 2\n'
                            'INVARIANTS LeftOut Nested Emit\nCHECK_DEADLOCK FALSE\n', d)
    cs = sorted(cs, key=str)
    items = max(len(c[0]) for c in cs)
    few = [c for c in cs if c[2] == 'plain' and max(len(c[0]), len(c[1])) >= items - 1]
    rest = [c for c in cs if c not in few]
    cs = few + sample(rest, 100 if quick else 3000, SEED)
    cases = [{'id': 'config-%d-%d' % (SEED, i), 'omitted': sorted(c[0]), 'other': sorted(c[1]), 'style': c[2],
              'order': list(range(6)), 'start': 0, 'stop': 2 * 6, 'at': list(range(0, 12, 2)),
              'steps': c[4], 'intervals': c[5], 'thr': c[6], 'fed': []}
             for i, c in enumerate(cs)]
    for c in cases:
        n = 4 if 'output_mode' in c['other'] else 6
        c.update(order=list(range(n)), stop=2 * n - 4, at=list(range(0, 2 * n, 2)),
                 fed=[[i, i + 1, 2 * i + 2] for i in range(n - 1)])
    out = trace_check(ctx, None, 1e9, module='FileTrace', kind='window', cases=cases)
    return finish(out, r, cases)


CONFIG.name = 'file runs, configurations of Config.tla (FileTrace)'


def LIFE(ctx):
    """runs with something wrong, one per behaviour of Lifecycle.tla"""
    d = ctx.dir('life')
    quick = ctx.tier == 'quick'
    r, cs = enumerate_cases(
        ctx, 'Lifecycle', 'SPECIFICATION Spec\nCONSTANTS\n Steps = 3\n Attempts = %d\nINVARIANTS OnlyComplete '
        'Untouched Noticed RefusedFirst Recovers Emit\nPROPERTIES Whole Ends\nCHECK_DEADLOCK FALSE\n'
        % (2 if quick else 3), d)
    allowed = {}
    for wrong, passing, prior, log in cs:
        allowed.setdefault(json.dumps([wrong, passing, prior]), []).append(log)
    cases = []
    for i, key in enumerate(sorted(allowed)):
        wrong, passing, prior = json.loads(key)
        cases += [{'id': 'life-%d-%d-%d' % (SEED, i, k), 'fault': wrong[0] if wrong else [], 'record': wrong[1] if wrong else 0,
                   'config': bool(wrong) and (wrong[0][0] in ('missing', 'type', 'option', 'window', 'steps')
                                              or wrong[0] in (['path', 'config'], ['kind', 'config']))
                   and wrong[0] != ['type', 'input_csv'],
                   'passing': passing, 'prior': prior, 'logs': allowed[key], 'after': (i + k) % 2 == 0}
                  for k in range((4 if wrong and wrong[0][0] in ('row', 'rows') else 2) * (1 if quick else 3))]
    out, _ = replay(ctx, 'life', cases, d, timeout=600)
    return finish(out, r, cases)


LIFE.name = 'runs with a fault, all behaviours of Lifecycle.tla carried out'


def DIVISION(ctx):
    """lengths of steps, all behaviours of Division.tla"""
    d = ctx.dir('division')
    quick = ctx.tier == 'quick'
    r, cs = enumerate_cases(
        ctx, 'Division', 'SPECIFICATION Spec\nCONSTANTS\n Lengths = {0, 1, 2, 3, 4, 5, 6, 12, 15%s}\n Intervals = '
        '{5, 6, 7, 12, 15, 30%s}\n DataSteps = 2\nINVARIANTS Covered OnTime Loses Emit\nPROPERTY Ends\n'
        'CHECK_DEADLOCK FALSE\n' % (('', '') if quick else (', 7, 10, 30, 60', ', 60, 90')), d)
    cs = sorted(cs, key=str)
    n = 120 if quick else 4000
    cases = []
    near = [c for c in cs if not c[5] and min(c[:3]) > 0]
    bare = [c for c in cs if not c[5] and min(c[:3]) <= 0]
    for c in sample([c for c in cs if c[5]], n, SEED) + sample(near, n, SEED) + sample(bare, n // 3, SEED):
        cases.append({'id': 'division-%d-%d' % (SEED, len(cases)), 'lengths': c[:3], 'data': c[3], 'level': c[4],
                      'fits': c[5], 'ends': c[6], 'n': 2})
    out, _ = replay(ctx, 'division', cases, d, timeout=600)
    return finish(out, r, cases)


DIVISION.name = 'lengths of steps, behaviours of Division.tla'


def AVG(ctx):
    d = ctx.dir('avg')
    deep = 4 if ctx.tier == 'thorough' else 3
    r, cs = enumerate_cases(ctx, 'Averages', 'SPECIFICATION Spec\nCONSTANTS\n Depth = %d\n Cells = 4\n'
                            'INVARIANTS Among OwnCell Emit\nCHECK_DEADLOCK FALSE\n' % deep, d)
    cases = [{'id': 'avg-%d' % i, 'hist': c[0], 'cell': i % 4} for i, c in enumerate(sorted(cs, key=str))]
    out, _ = replay(ctx, 'averages', sample(cases, 20000, SEED), d)
    return finish(out, r, cases)


AVG.name = 'means and totals, all histories of Averages.tla replayed'
F0 = FUN()
W0 = FILES()
P0 = PAIRS(['any', 'steps', 'layers', 'still', 'spread', 'long', 'vanish', 'steps'])
