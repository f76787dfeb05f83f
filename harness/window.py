"""File runs: PySnobal(config).run() on files written for the case, in a
scratch folder, and the point model fed directly with the rows that
Window.tla says are used."""
import contextlib
import copy
import io
import os
import random
import shutil
import tempfile

import pandas as pd

import gen
import impl
from impl import num
from pysnobal.point import InputData
from pysnobal.pysnobal import PySnobal

FREEZE = 273.16
COLUMNS = (('net_solar', 'S_n', 2), ('incoming_thermal', 'I_lw', 2), ('air_temp', 't_a', 3),
           ('vapor_pressure', 'e_a', 2), ('wind_speed', 'u', 3), ('soil_temp', 't_g', 3),
           ('precip_mass', 'm_pp', 3), ('percent_snow', 'percent_snow', 3),
           ('rho_snow', 'rho_snow', 1), ('precip_temp', 't_pp', 3))
CELSIUS = ('air_temp', 'soil_temp', 'precip_temp')
STEPS = gen.STEPS + gen.WIDE_STEPS + [(60, 30, 1), (120, 120, 4), (90, 45, 1), (720, 180, 60), (1440, 360, 30),
                                      (60, 60, 60), (15, 5, 1), (60, 60, 1)]
ZONES = ['UTC', 'MST', 'US/Mountain', 'Asia/Kolkata', 'Etc/GMT+3', 'Pacific/Auckland']


def build(c):
    """the files' contents: everything in it is what a user would write"""
    r = random.Random('window%s' % c['id'])
    n = len(c['order'])
    # one in three has everything at its default
    fam = r.choice(['any', 'fresh', 'layers', 'wet', 'precip', 'heights', 'steps', 'vapour'])
    sc = gen.scenario(r.randrange(10**9), fam, n - 1)
    cfg = sc['cfg']
    if r.random() < .4:
        cfg['steps'] = list(r.choice(STEPS))
        cfg['nd'] = r.choice([1, 1, 1, 2, 4])
    if n > 60:          # a season: storms and spells, steps of one length
        k = r.choice([30, 60, 180])
        cfg.update(steps=[k, k, k], nd=1, relative=r.random() < .5)
        for i, x in enumerate(sc['data']):
            if i % 50 > 5:
                x.update(m_pp=0., percent_snow=0., rho_snow=0.)
        top = sc['ic']['z_s'] + 2 + sum(x['m_pp'] * x['percent_snow'] / x['rho_snow'] for x in sc['data']
                                        if x['m_pp'] * x['percent_snow'] > 0)
        if not cfg['relative']:
            cfg['z_u'], cfg['z_t'] = [max(cfg[h], round(top, 2)) for h in ('z_u', 'z_t')]
    cfg['thr'] = [float(max(1, int(x))) for x in cfg['thr']]
    cfg['z_g'] = max(cfg['z_g'], .1)
    ic = dict(sc['ic'])
    ic['t_s_0'], ic['t_s'] = [round(ic[k] - FREEZE, 4) for k in ('t_s_0', 't_s')]
    for k in ('z_s', 'rho', 'h2o_sat'):
        ic[k] = round(ic[k], 5)
    rows = []
    for x in sc['data']:
        y = {}
        for col, k, digits in COLUMNS:
            v = x[k] - (FREEZE if col in CELSIUS else 0)
            y[col] = round(v, digits)
        y['percent_snow'] = min(1., max(0., y['percent_snow']))
        if y['percent_snow'] > 0 and y['precip_mass'] > 0:
            y['rho_snow'] = max(30., y['rho_snow'])
        rows.append(y)
    used = {i for f in c['fed'] for i in f[:2]} or set(range(n))
    for i, y in enumerate(rows):        # what lies outside the window is nobody's business
        if i not in used and r.random() < .5:
            y.update({k: r.choice([-999., 9999., float('nan'), 0., v]) for k, v in y.items()})
    if r.random() < .2:                 # nor what precipitation would be like if there were any
        for y in rows:
            if y['precip_mass'] == 0 and r.random() < .6:
                y.update(percent_snow=float('nan'), rho_snow=float('nan'), precip_temp=float('nan'))
    b = {'cfg': cfg, 'ic': ic, 'rows': rows, 'zone': r.choice(ZONES),
         'base': r.choice(['2003-11-28 00:00', '1983-12-31 20:00', '2004-02-28 05:00', '2020-01-10 17:30', '2010-06-15 12:00']),
         'mode': r.choice(['normal', 'normal', 'all']), 'format': r.random() < .5,
         'shuffle_cols': r.random() < .3, 'extra_col': r.random() < .2,
         'omit': [], 'instance': r.random() < .2, 'again': r.random() < .3}
    if r.random() < .2:         # the clocks go forward
        b['zone'], b['base'] = r.choice([('US/Mountain', '2021-03-13 22:00'),
                                         ('Pacific/Auckland', '2021-09-25 23:00'),
                                         ('Europe/Zurich', '1999-03-27 21:30')])
    if r.random() < .4 and n <= 60:         # a short configuration
        for place, key, name, v in DEFAULTS:
            if r.random() < .5:
                where = {'cfg': cfg, 'ic': ic, 'b': b}[place]
                where[key] = v
                b['omit'].append(name)
        cfg['thr'] = [float(DEFAULT_THR[i]) if 'thr%d' % i in b['omit'] else x
                      for i, x in enumerate(cfg['thr'])]
        if cfg['thr'] != sorted(cfg['thr'], reverse=True):
            cfg['thr'] = [float(x) for x in DEFAULT_THR]
        if cfg['steps'][0] * cfg['nd'] == 60:
            b['omit'].append('time_step')
    return b


DEFAULT_THR = (60, 10, 1)
DEFAULTS = (('cfg', 'max_h2o', 'max_h2o', .01), ('cfg', 'max_z0', 'max_active', .25),
            ('cfg', 'z_g', 'z_g', .5), ('cfg', 'z_0', 'z_0', .005),
            ('cfg', 'thr0', 'thr0', 0), ('cfg', 'thr1', 'thr1', 0), ('cfg', 'thr2', 'thr2', 0),
            ('ic', 'h2o_sat', 'h2o_sat', 0.), ('b', 'mode', 'output_mode', 'normal'),
            ('b', 'format', 'format_output', True), ('b', 'zone', 'time_zone', 'UTC'))


# Config.tla: the items of the configuration, by section, with the documented defaults
SECTIONS = (('topo', ('elevation',)),
            ('time', ('start_date', 'end_date', 'time_zone', 'time_step')),
            ('measurement_heights', ('z_u', 'z_T', 'z_g', 'relative_heights')),
            ('model', ('norm_time_step', 'medium_time_step', 'small_time_step', 'norm_threshold',
                       'medium_threshold', 'small_threshold', 'max_h2o', 'max_active')),
            ('files', ('input_csv', 'output_csv', 'output_mode', 'format_output')),
            ('initial_snow_properties', ('z_s', 'rho', 't_s_0', 't_s', 'h2o_sat', 'z_0')))
DOCUMENTED = {'time_zone': 'UTC', 'z_u': 5., 'z_T': 5., 'z_g': .5, 'relative_heights': False, 'max_h2o': .01,
              'max_active': .25, 'output_mode': 'normal', 'format_output': True, 'z_s': 0., 'rho': 0.,
              't_s_0': 0., 't_s': 0., 'h2o_sat': 0., 'z_0': .005}


def configured(c):
    """a file run whose configuration is a behaviour of Config.tla"""
    r = random.Random('config%s' % c['id'])
    other = {'time_zone': r.choice([z for z in ZONES if z != 'UTC']), 'z_u': r.choice([3., 7.5, 10.]),
             'z_T': r.choice([2.5, 4., 8.]), 'z_g': r.choice([.2, .35, 1.]), 'relative_heights': True,
             'max_h2o': r.choice([.003, .02, .04]), 'max_active': r.choice([.1, .15, .4]),
             'output_mode': 'all', 'format_output': False, 'rho': r.choice([150., 280., 350.]),
             't_s_0': r.choice([-6., -2.5, -.75]), 't_s': r.choice([-4., -1.25, -.5]),
             'h2o_sat': r.choice([.2, .6, 1.]), 'z_0': r.choice([.0005, .002, .01])}
    active = other['max_active'] if 'max_active' in c['other'] else .25
    # layers of every mass: none below, one near a threshold, plenty
    other['z_s'] = round(r.choice([active * .6, active + 1.5 / other['rho'], active + 15. / other['rho'],
                                   active + 70. / other['rho'], active * .2, 1.2]), 5)
    if not {'t_s_0', 't_s'} <= set(c['other']):
        other['t_s_0'] = other['t_s']
    v = {}
    for k, d in DOCUMENTED.items():
        given = 'cover' if k in ('z_s', 'rho') else k
        v[k] = other[k] if given in c['other'] else d
    # a warm layer cannot be assumed: water in cold snow refreezes at once
    rows = []
    n = 6 if v['output_mode'] == 'normal' else 4
    warm = r.random() < .5
    for i in range(n):
        y = {'net_solar': round(r.choice([0., 0., 150., 400.]) * r.random(), 2),
             'incoming_thermal': round(r.uniform(200, 340), 2), 'air_temp': round(r.uniform(-8, 9 if warm else 0), 3),
             'vapor_pressure': round(r.uniform(150, 600), 2), 'wind_speed': round(r.uniform(.3, 7), 3),
             'soil_temp': round(r.uniform(-3, 1), 3), 'precip_mass': 0., 'percent_snow': 0., 'rho_snow': 0.,
             'precip_temp': 0.}
        if i == 0 and v['z_s'] == 0:        # between the thresholds of a layer, or a snowcover
            y.update(precip_mass=r.choice([1.5, 14., 70., 140.]), percent_snow=1., rho_snow=150.,
                     precip_temp=-1.)
        elif r.random() < .4:
            y.update(precip_mass=round(r.uniform(.2, 9), 3), percent_snow=r.choice([0., .4, 1.]), rho_snow=120.,
                     precip_temp=round(r.uniform(-4, 2), 3))
        rows.append(y)
    zone = v['time_zone']
    return {'cfg': {'steps': c['steps'], 'nd': c['intervals'][0], 'thr': [float(x) for x in c['thr']],
                    'max_h2o': v['max_h2o'], 'max_z0': v['max_active'], 'z_u': v['z_u'], 'z_t': v['z_T'],
                    'z_g': v['z_g'], 'relative': v['relative_heights'], 'z_0': v['z_0'],
                    'elevation': r.choice([0., 650., 2061., 3550.])},
            'ic': {k: v[k] for k in ('z_s', 'rho', 't_s_0', 't_s', 'h2o_sat')}, 'rows': rows, 'zone': zone,
            'base': r.choice(['2003-11-28 00:00', '2004-02-28 05:00', '2020-01-10 17:30', '2010-06-15 12:00']),
            'mode': v['output_mode'], 'format': v['format_output'], 'shuffle_cols': False, 'extra_col': False,
            'omit': sorted(x for k in c['omitted'] for x in (['z_s', 'rho'] if k == 'cover' else [k])),
            'instance': c['style'] == 'instance', 'again': False, 'style': c['style']}


def layout(sections, style, d, seed):
    """the text of a configuration file: its sections and items written in
    another of the ways that mean the same"""
    r = random.Random('layout%s' % seed)
    form, name = '%s: %s', str
    if style == 'capitals':
        form, name = '%s: %s', str.upper
    elif style == 'spaced':
        form = '  %s  :    %s  '
    if style == 'absolute':
        sections = [(x, [(k, os.path.join(d, v) if k.endswith('_csv') else v) for k, v in items])
                    for x, items in sections]
    if style == 'shuffled':
        sections = [(x, r.sample(items, len(items))) for x, items in r.sample(sections, len(sections))]
    text = ''
    for x, items in sections:
        text += '[%s]\n' % name(x)
        for k, v in items:
            if style == 'commented':
                text += '# the item %s\n\n' % k
            text += form % (name(k), v) + (' # as measured' if style == 'commented' else '') + '\n'
        text += '\n'
    return text


def when(b, half):
    """local time of half intervals since the first row"""
    d = b['cfg']['steps'][0] * b['cfg']['nd']
    t = pd.Timestamp(b['base']).tz_localize(b['zone']) + pd.Timedelta(seconds=30 * d * half)
    return t.tz_localize(None)


def write(b, c, d):
    cfg, ic = b['cfg'], b['ic']
    csv = os.path.join(d, 'in.csv')
    cols = [x for x, _, _ in COLUMNS]
    if b['shuffle_cols']:
        random.Random(c['id']).shuffle(cols)
    r = random.Random('table%s' % c['id'])
    table = [['date_time'] + cols + (['snow_depth'] if b['extra_col'] else [])]
    # the same table written in other ways
    stamp, whole, end = '%Y-%m-%d %H:%M:%S', r.random() < .3, '\n'
    if r.random() < .3:
        stamp = r.choice(['%Y-%m-%dT%H:%M:%S', '%Y-%m-%d %H:%M', '%m/%d/%Y %H:%M', '%Y/%m/%d %H:%M:%S'])
    if r.random() < .15:
        end = '\r\n'
    whole = [x for x in cols if whole and all(y[x] != y[x] or y[x] == int(y[x]) for y in b['rows'])]
    if any(when(b, x).second for x in c['at']):
        stamp = stamp if '%S' in stamp else '%Y-%m-%d %H:%M:%S'
    for i in c['order']:
        y = b['rows'][i]
        table.append([when(b, c['at'][i]).strftime(stamp)]
                     + ['' if y[x] != y[x] else str(int(y[x])) if x in whole else repr(y[x]) for x in cols]
                     + ([['', str(i)][r.random() < .7]] if b['extra_col'] else []))
    if r.random() < .15:            # the time in another place
        k = r.randrange(len(table[0]))
        table = [x[1:k + 1] + x[:1] + x[k + 1:] for x in table]
    with open(csv, 'w', newline='') as fh:
        fh.write(end.join(','.join(x) for x in table) + r.choice([end, end, end, '', end * 2]))
    ini = os.path.join(d, 'run.ini')
    names = {'thr0': 'norm_threshold', 'thr1': 'medium_threshold', 'thr2': 'small_threshold'}
    style = b.get('style', 'plain')
    omit = [names.get(x, x) for x in b['omit']
            if not x.startswith('thr') or cfg['thr'][int(x[3])] == DEFAULT_THR[int(x[3])]]
    sections = [
        ('topo', [('elevation', cfg['elevation'])]),
        ('time', [('start_date', when(b, c['start']).strftime('%Y-%m-%d %H:%M')),
                  ('end_date', when(b, c['stop']).strftime('%Y-%m-%d %H:%M')),
                  ('time_zone', b['zone']), ('time_step', cfg['steps'][0] * cfg['nd'])]),
        ('measurement_heights', [('z_u', cfg['z_u']), ('z_T', cfg['z_t']), ('z_g', cfg['z_g']),
                                 ('relative_heights', cfg['relative'])]),
        ('model', [('norm_time_step', cfg['steps'][0]), ('medium_time_step', cfg['steps'][1]),
                   ('small_time_step', cfg['steps'][2]), ('norm_threshold', int(cfg['thr'][0])),
                   ('medium_threshold', int(cfg['thr'][1])), ('small_threshold', int(cfg['thr'][2])),
                   ('max_h2o', cfg['max_h2o']), ('max_active', cfg['max_z0'])]),
        ('files', [('input_csv', 'in.csv'), ('output_csv', 'out.csv'), ('output_mode', b['mode']),
                   ('format_output', b['format'])]),
        ('initial_snow_properties', [(k, ic[k]) for k in ('z_s', 'rho', 't_s_0', 't_s', 'h2o_sat')]
         + [('z_0', cfg['z_0'])]),
    ]
    with open(ini, 'w') as fh:
        fh.write(layout([(x, [y for y in items if y[0] not in omit]) for x, items in sections],
                        style, d, c['id']))
    return ini, csv


def config(ini):
    from inicheck.config import MasterConfig
    from inicheck.tools import get_user_config
    import pysnobal.pysnobal as module
    core = os.path.join(os.path.dirname(module.__file__), PySnobal.CORE_CONFIG)
    return get_user_config(ini, mcfg=MasterConfig(path=core))


def file_run(b, c):
    """-> dict of what the run left, or its error"""
    d = tempfile.mkdtemp(prefix='window-', dir=os.getcwd())
    out = {'error': None, 'own': None, 'lines': None}
    path = os.path.join(d, 'out.csv')
    try:
        ini, csv = write(b, c, d)
        with open(csv, newline='') as fh:
            before = fh.read()
        text = io.StringIO()
        try:
            with contextlib.redirect_stdout(text):
                ps = PySnobal(config(ini) if b['instance'] else ini)
                ps.run()
        except (Exception, SystemExit) as e:
            out['error'] = impl.describe(e) + (text.getvalue()[-300:] if isinstance(e, SystemExit) else '')
        with open(csv, newline='') as fh:
            out['same'] = fh.read() == before
        out['left'] = os.path.exists(path)
        if out['error'] is None:
            out['own'] = list(ps.snobal.output_list)
            with open(path) as fh:
                text = fh.read()
            out['lines'] = text.splitlines()
            out['again'] = True
            if b['again']:
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        ps.run()
                    with open(path) as fh:
                        out['again'] = fh.read() == text
                except Exception:
                    out['again'] = False
    finally:
        shutil.rmtree(d)
    return out


def direct(b, c):
    """the point model fed with the rows of the window -> records, error"""
    cfg = b['cfg']
    ic = dict(b['ic'], t_s_0=b['ic']['t_s_0'] + FREEZE, t_s=b['ic']['t_s'] + FREEZE)
    ic['t_s_l'] = ic['t_s']
    recs = []
    for y in b['rows']:
        recs.append({k: y[col] + (FREEZE if col in CELSIUS else 0.) for col, k, _ in COLUMNS})
    m = impl.model({'cfg': cfg, 'ic': ic}, b['mode'])
    ins = {}
    try:
        for first, second, _ in c['fed']:
            if first not in ins:
                ins[first] = InputData(recs[first])
            ins[second] = InputData(recs[second])
            m.do_data_tstep(ins[first], ins[second])
    except Exception as e:
        return None, impl.describe(e)
    return m.output_list, None


def differs(b, c):
    """-> True or False, None where it cannot be told"""
    got = file_run(b, c)
    want, err = direct(b, c)
    if got['error'] and err:
        return None
    if got['error'] or err:
        return True
    if len(want) != len(got['own']):
        return True
    start = when(b, c['start']).tz_localize(b['zone'])
    for x, y in zip(want, got['own']):
        p, q = impl.record(x), impl.record(y)
        if impl.seconds(impl.begin(b['cfg']), x['date_time']) != impl.seconds(start, y['date_time']):
            return True
        if any(not abs(p[k] - q[k]) <= 1e-7 + 1e-7 * abs(p[k]) for k in p):
            return True
    return False


PARTS = (('heights', 'C16'), ('low', 'C16'), ('water', 'C07'), ('layer', 'C06'), ('steps', 'C10'),
         ('cover', 'C20'), ('mode', 'C13'), ('precip', 'C12'))


def neutral(b, *parts):
    """the same with these parts of the configuration at their defaults"""
    b = copy.deepcopy(b)
    cfg = b['cfg']
    for what in parts:
        if what == 'heights':
            cfg.update(relative=True, z_u=5., z_t=5.)
        elif what == 'low':
            cfg.update(relative=False, z_u=15., z_t=15.)
        elif what == 'steps':
            n = cfg['steps'][0] * cfg['nd']
            cfg.update(thr=[60., 10., 1.], nd=1, steps=[n, n, n])
        elif what == 'water':
            cfg.update(max_h2o=.01)
        elif what == 'layer':
            cfg.update(max_z0=.25)
        elif what == 'mode':
            b['mode'] = 'normal'
        elif what == 'precip':
            for y in b['rows']:
                y.update(precip_mass=0., percent_snow=0., rho_snow=0., precip_temp=0.)
        elif what == 'cover':
            b['ic'] = dict(z_s=0, rho=0, t_s_0=0, t_s=0, h2o_sat=0)
            cfg['z_0'] = .005
            for y in b['rows']:      # but snow, or nothing would matter
                y.update(precip_mass=50., percent_snow=1., rho_snow=150., precip_temp=-2.)
    return b


def blame(b, c):
    """the parts of the configuration that make the difference: it goes when
    they are at their default and, if that is true of several, stays when all
    others are"""
    found = [(what, p) for what, p in PARTS if differs(neutral(b, what), c) is False]
    sure = []
    for what, p in found if len(found) > 1 else ():
        others = [x for x, _ in PARTS if x not in (what, 'low') and not (what == 'low' and x == 'heights')
                  and not (what == 'precip' and x == 'cover')]
        if differs(neutral(b, *others), c):
            sure.append((what, p))
    return sorted({p for _, p in sure or found}) or ['C18']


def cell(text):
    expo = 'e' in text.lower()
    mant, _, e = text.lower().partition('e')
    try:
        val = float(text)
    except ValueError:
        val = float('nan')
    return {'val': val, 'decs': len(mant.partition('.')[2]), 'expo': expo,
            'scale': 10. ** int(e) if expo and e.lstrip('+-').isdigit() else 1.}


SAME = ['R_n', 'H', 'L_v_E', 'G', 'M', 'delta_Q', 'G_0', 'delta_Q_0', 'E_s', 'melt', 'swi', 'z_s', 'z_s_0',
        'z_s_l', 'm_s', 'm_s_0', 'm_s_l', 'rho', 't_s', 't_s_0', 't_s_l', 'cc_s_0', 'cc_s_l', 'h2o', 'h2o_sat']


def records(recs, start):
    out = []
    for rec in recs:
        r = impl.record(rec)
        x = {k: r[k] for k in SAME}
        x['cc_s'] = num(rec.get('cc_s'))
        out.append({'at': impl.seconds(start, rec['date_time']), 'r': x})
    return out


def tags_of(b, c):
    return ['mode-' + b['mode'], 'format-%s' % b['format'], 'zone-' + b['zone'],
            'bare' if b['ic']['z_s'] == 0 else 'snow', 'relative-%s' % b['cfg']['relative'],
            'nd%d' % b['cfg']['nd'], 'instance-%s' % b['instance'], 'omitted-%d' % min(1, len(b['omit'])),
            'again-%s' % b['again'], 'dst-%s' % ('03' in b['base'][5:7] or '09' in b['base'][5:7]),
            'rows%d' % min(3, len(str(len(c['order'])))), 'regular-%s' % (c['at'] == [2 * i for i in range(len(c['at']))]), 'sorted' if c['order'] == sorted(c['order']) else 'unsorted']


def matters(b, c, want):
    """of one item given another value: does it make a difference?"""
    r = random.Random('matters%s' % c['id'])
    items = [x for x in sorted(c['other']) if x in ('z_u', 'z_T', 'z_g', 'relative_heights', 'max_h2o', 'max_active',
                                                    't_s_0', 't_s', 'h2o_sat', 'z_0', 'cover')]
    tags = ['style-' + b['style']]
    for x in r.sample(items, min(1, len(items))):
        o = copy.deepcopy(b)
        if x == 'cover':
            o['ic'].update(z_s=0., rho=0.)
        elif x in o['ic']:
            o['ic'][x] = DOCUMENTED[x]
        else:
            o['cfg'][{'z_T': 'z_t', 'relative_heights': 'relative', 'max_active': 'max_z0'}.get(x, x)] = DOCUMENTED[x]
        got, err = direct(o, c)
        if err or records(got, impl.begin(b['cfg'])) != records(want, impl.begin(b['cfg'])):
            tags.append('matters-' + x)
    return tags


def window(c, job):
    b = configured(c) if 'style' in c else build(c)
    also = ['C26'] if 'style' in c else []
    got = file_run(b, c)
    if not c['fed']:
        bad = []
        if got['error'] is None:
            times = ['%s' % when(b, t) for t in sorted(c['at'])]
            bad = [(p, 'a table whose records do not make up the window is refused', 'an error', 'a run of %d records '
                    'for %s to %s, records at %s' % (len(got['own']), when(b, c['start']), when(b, c['stop']), times))
                   for p in ('C18', 'C24')]
        elif got['left']:
            bad = [('C24', 'no output table of a run that is refused', 'none', 'a table')]
        return {'_bad': bad, '_steps': 0}
    want, err = direct(b, c)
    if got['error'] or err:
        if bool(got['error']) == bool(err):
            return {'_bad': [], '_skip': 1}
        return {'_bad': [(p, 'a file run stops and the run of its window does not', repr(err)[:150],
                          repr(got['error'])[:150]) for p in also or blame(b, c) + ['C21']]}
    start = when(b, c['start']).tz_localize(b['zone'])
    own = records(got['own'], start)
    ref = records(want, impl.begin(b['cfg']))
    props = ['C18']
    if own != ref and any(len(own) != len(ref) or x['at'] != y['at'] or any(
            not abs(x['r'][k] - y['r'][k]) <= 1e-8 + 1e-8 * abs(y['r'][k]) for k in SAME)
            for x, y in zip(own, ref)):
        props = also or blame(b, c)
    lines = [x.split(',') for x in got['lines']]
    rows, zone = [], True
    half = 30 * b['cfg']['steps'][0] * b['cfg']['nd']
    for x in lines[1:]:
        try:
            ts = pd.Timestamp(x[0])
            at = impl.seconds(start, ts)
            zone = zone and ts.utcoffset() == ts.tz_convert(b['zone']).utcoffset()
        except Exception:
            at, zone = -1, False
        rows.append({'at': at, 'cells': [cell(y) for y in x[1:]]})
    tags = tags_of(b, c) + ([] if 'style' not in c else matters(b, c, want))
    return {'id': c['id'], 'cols': lines[0][1:], 'rows': rows, 'own': own, 'want': ref, 'blame': props, 'also': also,
            'mode': b['mode'], 'format': b['format'], 'zone': zone, 'names': got['same'], 'again': got['again'],
            'times': [half * (t - c['start']) for _, _, t in c['fed']],
            'tags': tags,
            '_steps': len(own)}
