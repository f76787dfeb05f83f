"""Runs the implementation (/repo, under its own interpreter) through its
public API and records what it reports."""
import math
import os
import random
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
from pysnobal.point import InputData, Snobal, libsnobal  # noqa: E402

START = pd.Timestamp('2000-01-01', tz='UTC')

STATE = ['z_s', 'z_s_0', 'z_s_l', 'm_s', 'm_s_0', 'm_s_l', 'rho', 't_s', 't_s_0',
         't_s_l', 'cc_s_0', 'cc_s_l', 'h2o', 'h2o_max', 'h2o_sat', 'h2o_vol']
FLUX = {'R_n': 'R_n_bar', 'H': 'H_bar', 'L_v_E': 'L_v_E_bar', 'G': 'G_bar',
        'G_0': 'G_0_bar', 'M': 'M_bar', 'delta_Q': 'delta_Q_bar',
        'delta_Q_0': 'delta_Q_0_bar', 'E_s': 'E_s_sum', 'melt': 'melt_sum',
        'swi': 'swi_sum'}
INPUT = ['S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g', 'm_pp', 'percent_snow',
         'rho_snow', 't_pp']


def num(x):
    try:
        return float(x)
    except Exception:
        return float('nan')


def small_int(x):
    try:
        y = int(x)
        return y if y == x and abs(y) < 2**31 else -1
    except Exception:
        return -1


def record(rec):
    """a record of output_list"""
    d = {k: num(rec.get(k)) for k in STATE}
    for k, src in FLUX.items():
        d[k] = num(rec.get(src))
    d['layer_count'] = small_int(rec.get('layer_count'))
    return d


def state(ss):
    """the snow state object itself"""
    d = {k: num(getattr(ss, k, None)) for k in STATE}
    for k in FLUX:
        d[k] = 0.0
    d['layer_count'] = small_int(getattr(ss, 'layer_count', None))
    return d


def tstep_info(cfg):
    n, m, s = cfg['steps']
    info = []
    for i, (mins, thr) in enumerate(zip((n, m, s), cfg['thr'])):
        info.append({'level': i, 'output': i == 0, 'threshold': thr,
                     'time_step': mins * 60,
                     'time_step_timedelta': pd.to_timedelta(mins, unit='min')})
    nd = cfg['nd']
    info[0].update(intervals=nd, intervals_per_timestep=nd)
    info[1].update(intervals=n // m, intervals_per_timestep=nd * (n // m))
    info[2].update(intervals=m // s, intervals_per_timestep=nd * (n // s))
    return info


def begin(cfg):
    """the time a run starts"""
    if 'start' not in cfg:
        return START
    when, zone = cfg['start']
    t = pd.Timestamp(when)
    return t.tz_localize(zone) if zone else t


def params(cfg):
    return {'start_date': begin(cfg), 'max_h2o_vol': cfg['max_h2o'],
            'max_z_s_0': cfg['max_z0'], 'elevation': cfg['elevation'],
            'relative_heights': cfg['relative']}


def heights(cfg):
    return {'z_u': cfg['z_u'], 'z_t': cfg['z_t'], 'z_g': cfg['z_g']}


def form(sc):
    """how the numbers of this scenario are given: as they are, as integers
    where they are whole, or as numpy's"""
    r = random.Random('form %s' % sc.get('id')).random()
    return 'whole' if r < 0.3 else 'numpy' if r < 0.36 else 'plain'


def dress(d, how):
    if how == 'plain':
        return dict(d)
    out = {}
    for k, v in d.items():
        if isinstance(v, float) and math.isfinite(v):
            if how == 'numpy':
                v = np.float64(v)
            elif v == int(v):
                v = int(v)
        out[k] = v
    return out


def initial(sc):
    ic = dict(sc['ic'])
    ic['z_0'] = sc['cfg']['z_0']
    return dress(ic, form(sc))


def model(sc, mode='all', parts=None):
    p, ti, ic, mh = parts or (params(sc['cfg']), tstep_info(sc['cfg']), initial(sc),
                              heights(sc['cfg']))
    return Snobal(p, ti, ic, mh, mode)


def spec_cfg(cfg):
    return {'max_h2o': float(cfg['max_h2o']), 'max_z0': float(cfg['max_z0']),
            'thr': [float(x) for x in cfg['thr']], 'elevation': float(cfg['elevation']),
            'z_u': float(cfg['z_u']), 'z_t': float(cfg['z_t']), 'z_g': float(cfg['z_g']),
            'relative': bool(cfg['relative']), 'z_0': float(cfg['z_0'])}


def inputs(rec):
    return {k: float(rec[k]) for k in INPUT}


def seconds(a, b):
    try:
        return small_int((b - a).total_seconds())
    except Exception:
        return -1


def describe(e):
    return '%s: %s' % (type(e).__name__, ' '.join(str(e).split())[:80])


def own_exchange(m, c, r1, s):
    """the implementation's own turbulent exchange, called directly with the
    heights the configuration asks for"""
    zu, zt = c['z_u'], c['z_t']
    if not c['relative']:
        zu, zt = zu - s['z_s'], zt - s['z_s']
    try:
        out = libsnobal.hle1(m.P_a, r1['t_a'], s['t_s_0'], zt,
                             min(r1['e_a'], libsnobal.sati(r1['t_a'])),
                             libsnobal.sati(s['t_s_0']), zt, r1['u'], zu, c['z_0'])
        return [num(out[0]), num(out[1])]
    except Exception:
        return None


def tuned(sc):
    """the scenario with its records tuned, one data step after the other, so
    that some quantity of the first run step comes to lie next to a boundary
    of the rules; each data step then has its own pair of records"""
    import aim
    r = random.Random(sc['aim'])
    pairs = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = model(sc)
        for x in sc['data'][:-1]:
            try:
                a = aim.tune(m, dict(x), r, sc['cfg'])
            except Exception:
                a = dict(x)     # what stops a run is for the run itself to show
            b = dict(a, m_pp=0.)
            pairs.append([a, b])
            try:
                m.do_data_tstep(InputData(dict(a)), InputData(dict(b)))
            except Exception:
                break
    return dict({k: v for k, v in sc.items() if k != 'aim'}, pairs=pairs)


def run(sc, mode='all', hx=False):
    """-> trace: what the model reported, run step by run step"""
    if 'aim' in sc:
        sc = tuned(sc)
    pairs = sc.get('pairs')
    cfg = sc['cfg']
    how = form(sc)
    D = 60 * cfg['steps'][0] * cfg['nd']
    tr = {'id': sc['id'], 'cfg': spec_cfg(cfg), 'D': D,
          'dts': [60 * x for x in cfg['steps']], 'data': []}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = model(sc, mode)
        tr['s0'] = state(m.snow_state)
        tr['ic'] = {k: float(v) for k, v in sc['ic'].items()}
        z_0 = num(getattr(m.snow_state, 'z_0', None))
        if z_0 == z_0:
            tr['z_0'] = z_0
        clock = begin(cfg)
        a = None
        prev = tr['s0']
        n = len(pairs) if pairs else len(sc['data']) - 1
        for i in range(n):
            one, two = pairs[i] if pairs else sc['data'][i:i + 2]
            if pairs or a is None:
                a = InputData(dress(one, how))
            b = InputData(dress(two, how))
            before = {k: num(getattr(b, k, None)) for k in INPUT}
            n = len(m.output_list)
            end = 'ok'
            with warnings.catch_warnings(record=True) as said:
                warnings.simplefilter('always')
                try:
                    m.do_data_tstep(a, b)
                except Exception as e:
                    end = describe(e)
            steps = []
            for rec in m.output_list[n:]:
                when = rec.get('date_time')
                st = {'dt': seconds(clock, when), 'r': record(rec)}
                if hx and not steps and prev['layer_count'] > 0:
                    x = own_exchange(m, cfg, one, prev)
                    if x:
                        st['hx'] = x
                steps.append(st)
                clock = when
                prev = st['r']
            after = {k: num(getattr(b, k, None)) for k in INPUT}
            tr['data'].append({'r1': inputs(one), 'r2': inputs(two),
                               'steps': steps, 'end': end, 'r2same': before == after,
                               'warned': len(said) > 0})
            if end != 'ok':
                break
            a = b
    return tr
