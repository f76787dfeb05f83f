"""Tunes an input record against a copy of the model so that a quantity of the
next run step lands at, or a little to either side of, a boundary."""
import copy

from gen import FREEZE, sat_ice
from pysnobal.point import InputData, SnowState

LF = 333500.


class Enough(Exception):
    pass


class OneRecord(list):
    """takes the first output record, and no more"""
    def append(self, x):
        list.append(self, x)
        raise Enough()


def first(m, x):
    """the first run step from m with the constant record x"""
    c = copy.copy(m)
    for k, v in vars(m).items():
        if isinstance(v, (dict, list, SnowState)):
            setattr(c, k, copy.copy(v))
    c.output_list = OneRecord()
    try:
        c.do_data_tstep(InputData(dict(x)), InputData(dict(x, m_pp=0.)))
    except Enough:
        pass
    return c.output_list[0]


def offset(r, sizes):
    """0, or next to it"""
    if r.random() < .15:
        return 0.
    return r.choice([-1., 1.]) * 10 ** r.uniform(*sizes)


def secant(fun, a, b, lo, hi, tol, n=8):
    """fun(x) = 0 in lo..hi, starting from a and b"""
    fa, fb = fun(a), fun(b)
    for _ in range(n):
        if abs(fb) <= tol or fb == fa:
            break
        c = b - fb * (b - a) / (fb - fa)
        c = min(max(c, lo), hi)
        if c == b:
            break
        a, fa, b = b, fb, c
        fb = fun(b)
    return b


def knob(m, x, key, value, target, span, tol, r):
    """x[key] such that value(first run step) = target"""
    def fun(v):
        return value(first(m, dict(x, **{key: v}))) - target
    a = x[key]
    b = a + (span[1] - span[0]) * .02
    if b > span[1]:
        b = a - (span[1] - span[0]) * .02
    x[key] = secant(fun, a, b, span[0], span[1], tol)
    return x


def liquid(q):
    """liquid water at the end of the run step, held and released"""
    return q['h2o'] + q['swi_sum']


def tune(m, x, r, cfg):
    s = m.snow_state
    n = s.layer_count
    norm = 60. * cfg['steps'][0]
    dry = dict(x, m_pp=0., percent_snow=0., rho_snow=0.)
    if n == 0:
        kind = r.choice(['newsnow', 'newsnow', 'grain', 'plain'])
    else:
        kind = r.choice(['surface', 'surface', 'capacity', 'capacity', 'refreeze', 'refreeze', 'neutral', 'still',
                         'mass', 'mass', 'soil', 'precip', 'plain', 'lower' if n == 2 else 'vapour',
                         'lower' if n == 2 else 'surface', 'refreezelower' if n == 2 else 'refreeze', 'vapour', 'cool'])
    if kind == 'newsnow':
        k = r.choice(cfg['thr'])
        x.update(m_pp=max(1e-6, k * norm * cfg['nd'] / norm + offset(r, (-12, -1))), percent_snow=r.choice([1., 1., .5]))
        if x['percent_snow'] < 1:
            x['m_pp'] *= 2
        x.update(rho_snow=max(2000 * cfg['max_h2o'], r.uniform(50, 300)), t_pp=r.uniform(262, 275))
    elif kind == 'grain':
        x.update(m_pp=10 ** r.uniform(-12, -2), percent_snow=r.choice([0., 1., .5]), rho_snow=r.uniform(100, 300))
    elif kind in ('surface', 'cool'):
        # what is left after the cold content, of the surface layer
        x = dry if r.random() < .7 else x
        dt = step(m, x, s)
        v = offset(r, (-9, 3)) if kind == 'surface' else -10 ** r.uniform(-6, 2.5)
        if s.h2o > 0 and r.random() < .5:
            x['t_pp'] = FREEZE
        knob(m, x, 'I_lw', lambda q: q['delta_Q_0_bar'] * dt + s.cc_s_0, v, (-2000., 4000.), abs(v) * 1e-6 + 1e-10, r)
        if kind == 'cool' and n == 2:
            knob(m, x, 't_g', lambda q: q['cc_s_l'], -10 ** r.uniform(-6, 2.5), (235., 300.), 1e-7, r)
    elif kind == 'capacity':
        v = offset(r, (-10, 0))
        if r.random() < .5:
            x.update(percent_snow=0., m_pp=1., t_pp=FREEZE + r.choice([0., 0., 3.]))
            knob(m, x, 'm_pp', lambda q: liquid(q) - q['h2o_max'], v, (1e-9, 300.), 1e-11, r)
        else:
            x = dry
            knob(m, x, 'I_lw', lambda q: liquid(q) - q['h2o_max'], v, (50., 3000.), 1e-11, r)
    elif kind == 'refreeze':
        # a deficit just using up the layer's share of the liquid water
        x = dry if r.random() < .7 else x
        dt = step(m, x, s)
        share = (s.h2o + x['m_pp'] * (1 - x['percent_snow']) * dt / (norm * cfg['nd'])) * LF \
            * s.z_s_0 / s.z_s
        v = -share + offset(r, (-9, 2)) * LF * 1e-3
        if r.random() < .2:
            v = -share * r.choice([.5, .999, 1.001, 2.])
        knob(m, x, 'I_lw', lambda q: q['delta_Q_0_bar'] * dt + s.cc_s_0, v, (-2000., 4000.), 1e-6, r)
    elif kind in ('lower', 'refreezelower'):
        x = dry
        dt = step(m, x, s)
        v = offset(r, (-9, 3))
        if kind == 'refreezelower':
            v = -s.h2o * LF * s.z_s_l / s.z_s + offset(r, (-9, 2)) * LF * 1e-3
        knob(m, x, 't_g', lambda q: (q['G_bar'] - q['G_0_bar']) * dt + s.cc_s_l, v, (200., 340.), 1e-7, r)
    elif kind == 'neutral':
        h = cfg['z_t'] - (0. if cfg['relative'] else s.z_s)
        x['t_a'] = s.t_s_0 - .0098 * h + offset(r, (-12, -1))
        if r.random() < .5:
            x['t_a'] = s.t_s_0
        x['e_a'] = sat_ice(s.t_s_0) * (1 + r.choice([0., 0., offset(r, (-9, -2))]))
    elif kind == 'still':
        x['u'] = r.choice([0., 10 ** r.uniform(-9, -2), .01, .1])
    elif kind == 'mass':
        k = r.choice(cfg['thr'])
        v = offset(r, (-10, -1))
        lower = n == 2 and r.random() < .5
        which = 'm_s_l' if lower else 'm_s'
        if r.random() < .6:
            x.update(percent_snow=1., m_pp=max(x['m_pp'], .5), t_pp=265.,
                     rho_snow=max(2000 * cfg['max_h2o'], r.uniform(60, 300)))
            knob(m, x, 'm_pp', lambda q: q[which], k + v, (1e-9, 400.), 1e-11, r)
        else:
            x = dry
            knob(m, x, 'I_lw', lambda q: q[which], k + v, (50., 4000.), 1e-11, r)
    elif kind == 'soil':
        x['t_g'] = r.choice([s.t_s_l if n == 2 else s.t_s_0, FREEZE, s.t_s_0]) + offset(r, (-12, 0))
    elif kind == 'precip':
        x.update(m_pp=10 ** r.uniform(-9, 2), percent_snow=r.choice([0., 1., 10 ** r.uniform(-12, 0), 1 - 10 ** r.uniform(-12, 0)]),
                 rho_snow=max(50., 2000 * cfg['max_h2o'], r.uniform(20, 600)), t_pp=FREEZE + offset(r, (-12, 1)))
    elif kind == 'vapour':
        x = dry
        e = sat_ice(s.t_s_0)
        x['e_a'] = max(1., e * r.choice([.05, .2, 1. + offset(r, (-9, -2)), 1.5]))
        x['u'] = r.choice([x['u'], 12.])
    return x


def step(m, x, s):
    """length of the first run step from here"""
    began = m.output_list[-1]['date_time'] if m.output_list else m.start_date
    return (first(m, x)['date_time'] - began).total_seconds()
