"""Scenarios: configuration, initial snowcover and forcing records.

Pure Python, deterministic in the random.Random it is given.  A scenario is a
JSON-able dict; it is what a replay file contains.
"""
import math
import random

FREEZE = 273.16


def sat_ice(t):
    if t > FREEZE:
        b = 373.15 / t
        return 10 ** (-7.90298 * (b - 1) + 5.02808 * math.log10(b)
                      - 1.3816e-7 * (10 ** (11.344 * (1 - t / 373.15)) - 1)
                      + 8.1328e-3 * (10 ** (-3.49149 * (b - 1)) - 1)
                      + math.log10(101324.6))
    f = FREEZE / t
    return 100 * 10 ** (-9.09718 * (f - 1) - 3.56654 * math.log10(f)
                        + 0.876793 * (1 - t / FREEZE) + math.log10(6.1071))


STEPS = [  # minutes of normal, medium, small step
    (60, 15, 1), (60, 15, 5), (60, 30, 10), (60, 20, 4), (30, 10, 2),
    (60, 60, 30), (180, 60, 20), (60, 15, 15), (120, 30, 10), (60, 10, 10)]


def pick(r, pairs, fam={}):
    """weighted choice; a family multiplies the weight of what it favours,
    by value or by the name given third"""
    def weight(p):
        k = p[2] if len(p) > 2 else p[1]
        return p[0] * fam.get(k, 1) if isinstance(k, str) else p[0]
    x = r.random() * sum(weight(p) for p in pairs)
    for p in pairs:
        x -= weight(p)
        if x < 0:
            return p[1]
    return pairs[-1][1]


def favour(fam):
    return lambda r, pairs: pick(r, pairs, fam)


def odds(r, p, fam, name):
    return r.random() < min(1., p * fam.get(name, 1))


# what a family of scenarios favours: multipliers on the weights below
FAMILIES = {
    'any': {},
    'fresh': {'none': 6, 'below': 4, 'thin': 2, 'storm': 3, 'mixed': 3, 'edgecold': 3, 'snowshower': 3},
    'layers': {'edge': 5, 'split': 6, 'thin': 3, 'none': 2, 'snowshower': 4, 'melt': 2, 'dry': 3,
               'storm': 2},
    'refreeze': {'two': 5, 'some': 2, 'split': 2, 'edgecold': 6, 'mixed': 4, 'showers': 4, 'rain': 3,
                 'wet': 4},
    'wet': {'some': 3, 'two': 3, 'thin': 2, 'rain': 4, 'showers': 5, 'melt': 4, 'mixed': 3, 'wet': 3},
    'compact': {'verydeep': 8, 'deep': 3, 'dense': 4, 'storm': 3, 'rain': 3, 'melt': 2},
    'vapour': {'dry': 6, 'humid': 6, 'thin': 2, 'two': 3, 'tg': 5, 'wet': 2},
    'steps': {'thin': 4, 'edge': 3, 'split': 5, 'melt': 3, 'storm': 3, 'snowshower': 4, 'othersteps': 6,
              'otherthr': 4, 'nd': 6},
    'jump': {'jump': 5, 'still': 0, 'tg': 4, 'thin': 3, 'split': 3, 'storm': 3, 'rain': 3, 'nd': 4},
    'precip': {'storm': 4, 'mixed': 6, 'rain': 3, 'showers': 2, 'edgecold': 3, 'still': 2},
    'still': {'still': 20, 'two': 3, 'split': 3, 'tg': 4},
    # turbulence that will not settle: rough, slow, far from neutral
    'rough': {'none': .3, 'still': 3},
    # at and beyond the limits of validity
    'limits': {'storm': 3, 'humid': 3, 'deep': 3, 'none': .3, 'still': 2},
    # masses exactly at the thresholds
    'ties': {'still': 2},
    # gone in one run step
    'vanish': {},
    # far from the ordinary
    'wide': {'verydeep': 2, 'nd': 4, 'othersteps': 3, 'otherthr': 2},
    # everything drawn from its whole range, nothing from anything else
    'spread': {},
    # sensors close to the snow
    'near': {'two': 2, 'some': 3, 'melt': 3, 'still': 3},
    # many data steps
    'long': {'still': 2},
    # records tuned so that a quantity lands next to a boundary
    'aimed': {'two': 2, 'some': 2, 'wet': 2, 'edge': 2, 'none': .3, 'othersteps': 3},
    'heights': {'two': 2, 'deep': 6, 'storm': 3, 'still': 4, 'heights': 8},
}


def config(r, fam):
    fam = FAMILIES[fam]
    pick = favour(fam)
    steps = pick(r, [(2, STEPS[0]), (8, None, 'othersteps')]) or r.choice(STEPS[1:])
    O = 'otherthr'
    thr = pick(r, [(5, (60., 10., 1.)), (1, (80., 20., 2.), O), (1, (30., 10., .5), O),
                   (1, (20., 5., .25), O), (.5, (10., 10., 10.), O), (.5, (100., 50., 5.), O),
                   (.5, (1., 1., 1.), O), (.5, (60., 200., 1.), O), (.3, (60., 10., 0.125), O)])
    cfg = dict(
        steps=list(steps), nd=pick(r, [(14, 1), (1, 2, 'nd'), (1, 3, 'nd')]), thr=list(thr),
        max_h2o=pick(r, [(5, .01), (1, 0.), (1, .02), (1, .05), (1, .1), (1, .003)]),
        max_z0=pick(r, [(5, .25), (1, .1), (1, .5), (1, .05), (1, .4)]),
        elevation=pick(r, [(3, 2061.), (1, 0.), (1, 3500.), (1, round(r.uniform(0, 4200), 1))]),
        z_u=pick(r, [(3, 5.), (2, round(r.uniform(3, 12), 2), 'heights')]),
        z_t=pick(r, [(3, 5.), (2, round(r.uniform(3, 12), 2), 'heights')]),
        z_g=pick(r, [(4, .5), (1, .1), (1, 1.), (1, .25)]),
        relative=r.random() < .3,
        z_0=pick(r, [(4, .005), (1, .001), (1, .01), (1, .0001), (1, .03)]))
    return cfg


def initial(r, cfg, fam):
    fam = FAMILIES[fam]
    pick = favour(fam)
    thr = cfg['thr'][2]
    kind = pick(r, [(3, 'none'), (3, 'thin'), (3, 'some'), (3, 'two'), (2, 'deep'),
                    (1, 'verydeep'), (2, 'edge'), (1.5, 'split'), (.5, 'below')])
    rho = pick(r, [(3, r.uniform(60, 250)), (4, r.uniform(200, 450)), (1, r.uniform(30, 99)),
                   (1, r.uniform(500, 600), 'dense'), (.3, 550.), (.2, 549.9999), (.5, 100.), (.5, 300.)])
    rho = max(rho, 2000 * cfg['max_h2o'])   # more ice than water
    mx = cfg['max_z0']
    if kind == 'none':
        return dict(z_s=0., rho=0., t_s_0=FREEZE, t_s=FREEZE, t_s_l=FREEZE, h2o_sat=0.)
    if kind == 'thin':
        z = r.uniform(thr * 1.05, 15.) / rho
    elif kind == 'some':
        z = r.uniform(.05, .4)
    elif kind == 'two':
        z = mx + r.uniform(.02, .6)
    elif kind == 'deep':
        z = r.uniform(.8, 2.)
    elif kind == 'verydeep':
        rho = r.uniform(380, 560)
        z = r.uniform(1900., 2400.) / rho
    elif kind == 'edge':       # a little more mass than the minimum
        z = thr * (1 + r.choice([1e-4, 1e-3, 1e-2, .05, .3]) * r.uniform(.3, 1)) / rho
    elif kind == 'split':      # lower layer mass about the minimum
        z = mx + thr * (1 + r.uniform(-.15, .3)) / rho
    else:
        z = thr * r.uniform(.2, 1.) / rho
    warm = r.random()
    if fam.get('wet', 1) > 1 and warm > .7:
        warm *= .9
    if warm < .4:
        t0 = t = tl = FREEZE
        sat = pick(r, [(2, 0.), (2, 1.), (3, r.random())])
    elif warm < .6:            # warm below, cold on top, wet
        t0, tl = FREEZE - r.expovariate(1.), FREEZE
        t = FREEZE - (FREEZE - t0) * min(1., mx / z)
        sat = pick(r, [(1, 0.), (1, 1.), (2, r.random())])
    elif warm < .7:            # cold below, warm top, wet
        t0, tl = FREEZE, FREEZE - r.expovariate(.5)
        t = FREEZE - (FREEZE - tl) * max(0., 1 - mx / z)
        sat = r.random()
    else:
        t = FREEZE - r.uniform(.01, 20)
        t0 = min(FREEZE, t + r.uniform(-8, 8))
        tl = min(FREEZE, t + r.uniform(-3, 3))
        sat = pick(r, [(2, 0.), (1, r.random())])
        if r.random() < .2:
            t0 = tl = t
    return dict(z_s=z, rho=rho, t_s_0=t0, t_s=t, t_s_l=tl, h2o_sat=sat)


def weather(r, n, hours, fam, cfg):
    """n records, hours apart."""
    fam = FAMILIES[fam]
    pick = favour(fam)
    regime = pick(r, [(3, 'melt'), (3, 'cold'), (3, 'mixed'), (2, 'storm'), (1.5, 'edgecold'),
                      (1.5, 'rain'), (1, 'dry'), (1, 'humid'), (1, 'wild'), (.7, 'showers'), (.7, 'snowshower')])
    base = {'melt': r.uniform(274, 286), 'cold': r.uniform(250, 270), 'mixed': r.uniform(270, 276),
            'storm': r.uniform(262, 274), 'edgecold': r.uniform(271, 273.5),
            'rain': r.uniform(273.5, 280), 'dry': r.uniform(262, 276),
            'humid': r.uniform(272, 284), 'wild': r.uniform(255, 285),
            'showers': r.uniform(272, 282), 'snowshower': r.uniform(263, 275)}[regime]
    amp = r.uniform(0, 8)
    rh = {'dry': r.uniform(.1, .4), 'humid': r.uniform(.85, 1.1), 'rain': r.uniform(.8, 1.05),
          'storm': r.uniform(.7, 1.05)}.get(regime, r.uniform(.3, .95))
    wind = pick(r, [(4, r.uniform(1, 6)), (2, r.uniform(5, 14)), (1, r.uniform(.4, 1.5))])
    if regime == 'dry':
        wind = r.uniform(3, 15)
    smax = pick(r, [(1, 0.), (2, r.uniform(20, 200)), (2, r.uniform(200, 700))])
    lw = r.uniform(190, 280) if regime in ('cold', 'dry', 'edgecold') else r.uniform(240, 380)
    pp = {'storm': .7, 'rain': .6, 'mixed': .35, 'edgecold': .3, 'wild': .4, 'humid': .2,
          'cold': .15, 'melt': .1, 'dry': 0., 'showers': .5, 'snowshower': .6}[regime]
    tg = pick(r, [(3, FREEZE), (2, r.uniform(273.16, 279), 'tg'), (1, r.uniform(265, 273.16), 'tg')])
    tgvar = pick(r, [(3, 0.), (1, r.uniform(.1, 2), 'tg')])
    still = odds(r, .18, fam, 'still')     # constant forcing
    jump = odds(r, .3, fam, 'jump')       # large changes between records
    phase = r.uniform(0, 24)
    recs = []
    for i in range(n):
        h = (phase + i * hours) % 24
        sun = max(0., math.sin((h - 6) / 12 * math.pi))
        ta = base + amp * math.sin((h - 9) / 12 * math.pi) + r.gauss(0, .5)
        if jump:
            ta += r.uniform(-6, 6)
        ta = min(max(ta, 235.), 303.)
        hum = min(max(rh + r.gauss(0, .05), .05), 1.2)
        u = max(0.3, wind + r.gauss(0, wind * .3))
        c = r.random()
        if c < .03:
            u = 0.
        rec = dict(S_n=smax * sun * r.uniform(.6, 1), I_lw=max(150., lw + r.gauss(0, 15)),
                   t_a=ta, e_a=hum * sat_ice(ta), u=u,
                   t_g=tg + (r.uniform(-1, 1) * tgvar if tgvar else 0.),
                   m_pp=0., percent_snow=0., rho_snow=0., t_pp=0.)
        if jump:
            rec['I_lw'] = r.uniform(180, 400)
            rec['S_n'] = r.choice([0., rec['S_n'], r.uniform(0, 600)])
        if c > .97:
            rec['t_a'] = FREEZE
            rec['e_a'] = hum * sat_ice(FREEZE)
        if r.random() < pp:
            rec.update(precip(r, regime, rec['t_a'], cfg))
        recs.append(rec)
    if still:
        keep = {k: recs[0][k] for k in ('S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g')}
        for x in recs:
            x.update(keep)
    return recs


def precip(r, regime, ta, cfg):
    thr = cfg['thr'][2]
    m = pick(r, [(3, r.uniform(.1, 3)), (2, r.uniform(2, 12)), (1, r.uniform(10, 40)),
                 (1, thr * r.uniform(.5, 1.5)), (.4, r.uniform(.001, .05)),
                 (.2, thr), (.3, r.uniform(40, 120))])
    if regime == 'showers':
        ps = 0.
    elif regime == 'snowshower':
        ps = 1.
    elif ta > 276:
        ps = pick(r, [(6, 0.), (1, .2), (1, 1.)])
    elif ta > 272:
        ps = pick(r, [(2, 0.), (2, .5), (1, .25), (1, r.random()), (2, 1.)])
    else:
        ps = pick(r, [(7, 1.), (1, .75), (1, r.random()), (.7, 0.)])
    tp = pick(r, [(4, ta - r.uniform(0, 3)), (1, FREEZE), (1, FREEZE - r.uniform(0, 6)),
                  (1, FREEZE + r.uniform(0, 4))])
    return dict(m_pp=m, percent_snow=ps,
                rho_snow=0. if ps == 0. and r.random() < .5 else
                max(2000 * cfg['max_h2o'], pick(r, [(4, r.uniform(50, 200)), (1, r.uniform(200, 450)), (.3, r.uniform(20, 50)),
                         (.2, 640.)])),
                t_pp=tp)


def rough(r, cfg, data):
    cfg['z_0'] = r.choice([.02, .03])
    low = r.random() < .4
    if low:
        cfg.update(relative=True, z_u=r.uniform(.5, 1.), z_t=r.uniform(1.3, 2.2), z_0=.01)
    for x in data:
        if low:
            x['u'] = r.uniform(.8, 2.)
            x['t_a'] = r.uniform(275., 288.)
        else:
            x['u'] = r.uniform(.25, .8)
            x['t_a'] = r.uniform(236., 262.)
        x['e_a'] = r.uniform(.2, 1.) * sat_ice(x['t_a'])


def ties(r, cfg, ic, data):
    """depths, densities and masses that are exact in binary"""
    cfg['thr'] = r.choice([[64., 16., 1.], [32., 8., 2.], [128., 32., 4.]])
    cfg['max_z0'] = .25
    cfg['max_h2o'] = r.choice([0., .015625])
    cfg['steps'] = r.choice([[60, 15, 5], [60, 30, 10], [30, 10, 2]])
    cfg['nd'] = 1
    rho = r.choice([64., 128., 256., 512.])
    m = r.choice(cfg['thr']) * r.choice([1., 1., 1., 2.])
    z = m / rho
    if r.random() < .4:            # lower layer at a threshold
        z = .25 + r.choice(cfg['thr']) / rho
    t = r.choice([FREEZE, 268.])
    ic.update(z_s=z, rho=rho, t_s=t, t_s_0=t, t_s_l=t, h2o_sat=0.)
    if r.random() < .3:
        ic.update(z_s=0., rho=0.)
    for x in data:
        if x['m_pp'] > 0 and r.random() < .7:
            x.update(m_pp=cfg['thr'][2] * r.choice([1., 1., 2., .5]), percent_snow=1., rho_snow=128.)


def limits(r, cfg, ic, data):
    kind = r.choice(['buried', 'buried', 'snowedin', 'relative', 'capped', 'dry', 'hot', 'surface'])
    z = ic['z_s']
    if kind == 'buried':
        cfg['relative'] = False
        which = r.choice(['z_u', 'z_t'])
        cfg[which] = max(.05, z + r.choice([-.3, 0., cfg['z_0'], cfg['z_0'] * 20, .3]))
    elif kind == 'snowedin':
        cfg['relative'] = False
        cfg[r.choice(['z_u', 'z_t'])] = z + r.uniform(.2, .8)
        for x in data:
            x.update(m_pp=r.uniform(10, 40), percent_snow=1., rho_snow=max(2000 * cfg['max_h2o'], r.uniform(60, 120)),
                     t_pp=r.uniform(262, 272))
    elif kind == 'relative':       # low sensors that stay above the snow
        cfg.update(relative=True, z_u=r.uniform(.3, 2.), z_t=r.uniform(.3, 2.), z_0=.001)
        for x in data:
            x['u'] = max(x['u'], 2.)
            x['t_a'] = r.uniform(268., 274.)
            x['e_a'] = .8 * sat_ice(x['t_a'])
    elif kind == 'surface':
        cfg.update(relative=True)
        cfg[r.choice(['z_u', 'z_t'])] = r.choice([0., cfg['z_0'], -1., cfg['z_0'] * .5])
    else:
        x = r.choice(data[1:])
        if kind == 'capped':
            for x in data:
                x['e_a'] = sat_ice(x['t_a']) * r.choice([.9, 1., 1.001, 1.01, 1.3, 3.])
        elif kind == 'dry':
            x['e_a'] = r.choice([0., -1., 1e-3, 1., 5.])
        else:
            x.update(t_a=r.uniform(380, 400), e_a=r.uniform(1.0e5, 1.3e5))


WIDE_STEPS = [(60, 30, 2), (120, 60, 15), (360, 60, 12), (60, 12, 3), (20, 10, 5), (10, 5, 1),
              (180, 90, 45), (60, 6, 6), (45, 15, 3), (60, 20, 1), (60, 60, 5), (240, 60, 30)]


def wide(r, cfg, ic, data):
    """plausible somewhere on earth, but not in an ordinary season"""
    def some(p):
        return r.random() < p
    if some(.6):
        cfg['steps'] = list(r.choice(WIDE_STEPS))
        cfg['nd'] = r.choice([1, 1, 2, 3, 4, 6])
    if some(.3):
        cfg['thr'] = r.choice([[200., 40., 4.], [90., 30., 3.], [50., 49., 48.], [60., 10., 9.],
                               [25., 12., 6.], [300., 150., 10.]])
    if some(.4):
        cfg['max_h2o'] = r.choice([.15, .12, .001, .0001, .08, .03])
    if some(.4):
        cfg['max_z0'] = r.choice([.02, .03, .7, 1., 1.5, .15])
    if some(.4):
        cfg['elevation'] = r.choice([-400., -50., 4500., 5500., 7000., 8500.])
    if some(.4):
        cfg['z_g'] = r.choice([.02, .05, 1.5, 2., 3.])
    if some(.3):
        cfg['z_0'] = r.choice([1e-5, 1e-4, .02])
    if some(.3):
        cfg.update(relative=True, z_u=r.choice([2., 10., 25.]), z_t=r.choice([2., 15., 30.]))
    if ic['z_s'] > 0:
        if some(.4):
            ic['rho'] = max(2000 * cfg['max_h2o'], r.choice([r.uniform(15, 60), r.uniform(400, 560), r.uniform(545, 600),
                                                             r.uniform(600, 700)]))
        if some(.4):
            ic['z_s'] = r.choice([r.uniform(2, 8), r.uniform(.005, .05), cfg['max_z0'] * r.uniform(.9, 1.1)])
        ic['rho'] = max(ic['rho'], 2000 * cfg['max_h2o'])
        if some(.4):
            low = r.choice([-60., -40., -30.])
            ic['h2o_sat'] = ic['h2o_sat'] if some(.3) else 0.
            ic['t_s'] = FREEZE + r.uniform(low, -.1)
            ic['t_s_0'] = min(FREEZE, ic['t_s'] + r.uniform(-5, 10))
            ic['t_s_l'] = min(FREEZE, ic['t_s'] + r.uniform(-5, 10))
        ic['z_s'] = max(ic['z_s'], 1.3 * cfg['thr'][2] / ic['rho'])
    kind = r.choice(['arctic', 'desert', 'gale', 'gentle', 'monsoon', 'soil', 'mix', 'mix', 'ordinary', 'cloud'])
    for x in data:
        k = r.choice(['arctic', 'desert', 'gale', 'gentle', 'monsoon', 'soil']) if kind == 'mix' else kind
        if k == 'arctic':
            x['t_a'] = r.uniform(210, 250)
            x['u'] = r.uniform(2, 12)
            x['I_lw'] = r.uniform(90, 200)
            x['t_g'] = r.uniform(240, 265)
            x['S_n'] = 0.
        elif k == 'desert':
            x['t_a'] = r.uniform(285, 320)
            x['S_n'] = r.uniform(0, 1000)
            x['u'] = r.uniform(1, 6)
        elif k == 'gale':
            x['u'] = r.uniform(14, 32)
        elif k == 'gentle':
            x['u'] = r.choice([0., .05, .1, .2, .4])
            x['t_a'] = r.uniform(268, 276)
        elif k == 'monsoon':
            x.update(m_pp=r.choice([r.uniform(20, 250), r.uniform(1e-6, 1e-2)]), percent_snow=0.,
                     rho_snow=0., t_pp=r.uniform(FREEZE, 303))
            x['t_a'] = r.uniform(276, 300)
        elif k == 'soil':
            x['t_g'] = r.choice([r.uniform(240, 262), r.uniform(276, 292)])
        elif k == 'cloud':
            x['I_lw'] = .98 * 5.67e-8 * x['t_a'] ** 4
            x['S_n'] = 0.
        if k != 'ordinary':
            x['e_a'] = r.choice([.02, .3, .7, .95]) * r.uniform(.8, 1.05) * sat_ice(x['t_a'])
        if x['m_pp'] and x['percent_snow'] and some(.4):
            x['rho_snow'] = max(2000 * cfg['max_h2o'], r.choice([r.uniform(8, 30), r.uniform(300, 550)]))
            x['t_pp'] = min(x['t_pp'], r.uniform(225, FREEZE))
        if x['m_pp'] and some(.15):
            x['percent_snow'] = r.choice([1e-9, 1e-4, .01, .99, 1 - 1e-9])
            x['rho_snow'] = max(x['rho_snow'], 50., 2000 * cfg['max_h2o'])
    if not cfg['relative']:
        top = ic['z_s'] + sum(x['m_pp'] * x['percent_snow'] / x['rho_snow'] for x in data if x['percent_snow'] > 0) + 1.5
        cfg['z_u'] = max(cfg['z_u'], round(top + r.uniform(.5, 2), 2))
        cfg['z_t'] = max(cfg['z_t'], round(top + r.uniform(.5, 2), 2))
    if some(.2):        # tiny changes between records
        keep = {k: data[0][k] for k in ('S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g')}
        for x in data:
            x.update(keep)
            k = r.choice(['S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g'])
            x[k] += r.choice([1e-3, .01, .1, -.01]) * (1 if k != 'e_a' else 30)
            x[k] = max(x[k], 0.)
        for x in data:
            x['e_a'] = max(x['e_a'], 1.)


def vanish(r, cfg, ic, data):
    """little snow in two layers and steps long enough to lose it at once"""
    thr = r.choice([1., .5, .25, .1])
    cfg['thr'] = [thr * r.choice([1, 1, 3]), thr, thr]
    cfg['steps'] = list(r.choice([(60, 60, 60), (60, 30, 30), (60, 30, 10), (30, 15, 5), (120, 60, 60)]))
    cfg['max_h2o'] = r.choice([0., .01, .01, .03])
    cfg['max_z0'] = r.choice([.01, .02, .03, .05])
    rho = max(2000 * cfg['max_h2o'], r.uniform(40, 200))
    lower = thr * r.uniform(.9, 3) / rho
    z = (cfg['max_z0'] + lower) if r.random() < .8 else thr * r.uniform(1.05, 4) / rho
    t = FREEZE - (0. if r.random() < .7 else r.expovariate(1.))
    ic.update(z_s=z, rho=rho, t_s=t, t_s_0=t, t_s_l=t, h2o_sat=r.choice([0., 0., 1., r.random()]) if t == FREEZE else 0.)
    m = rho * z
    for x in data:
        how = r.choice(['melt', 'melt', 'dry', 'rain', 'snow', 'snow', 'mild'])
        x.update(m_pp=0., percent_snow=0., rho_snow=0.)
        if how == 'melt':
            x.update(S_n=r.uniform(.3, 1.6) * m * 334000. / (60 * cfg['steps'][0]), t_a=r.uniform(275, 285), I_lw=300.)
            x['S_n'] = min(x['S_n'], 1100.)
            x['e_a'] = .6 * sat_ice(x['t_a'])
        elif how == 'dry':
            x.update(S_n=r.uniform(300, 700), t_a=r.uniform(273, 283), u=r.uniform(6, 15))
            x['e_a'] = r.uniform(.02, .2) * sat_ice(x['t_a'])
        elif how == 'rain':
            x.update(m_pp=r.uniform(.5, 30), t_pp=r.uniform(274, 285), t_a=r.uniform(275, 284), S_n=r.uniform(0, 300))
            x['e_a'] = .9 * sat_ice(x['t_a'])
        elif how == 'snow':
            x.update(m_pp=thr * r.uniform(1, 12), percent_snow=r.choice([1., 1., .6]), t_pp=r.uniform(268, 274),
                     rho_snow=max(2000 * cfg['max_h2o'], r.uniform(40, 150)), t_a=r.uniform(270, 275))
            x['e_a'] = .9 * sat_ice(x['t_a'])
        else:
            x.update(t_a=r.uniform(272, 276), S_n=r.uniform(0, 200))
            x['e_a'] = r.uniform(.5, 1) * sat_ice(x['t_a'])


def spread(r, cfg, ic, data):
    """each quantity from its whole range, independently of the others"""
    def log(a, b):
        return 10 ** r.uniform(math.log10(a), math.log10(b))
    cfg['steps'] = list(r.choice(WIDE_STEPS + STEPS[1:]))
    cfg['nd'] = r.choice([1, 1, 2, 3, 6])
    small = log(.1, 20)
    medium = small * r.choice([1., log(1, 10)])
    cfg['thr'] = [medium * r.choice([1., log(1, 20)]), medium, small]
    cfg['max_h2o'] = r.choice([0., .01, log(1e-4, .2)])
    cfg['elevation'] = r.uniform(-400, 6000)
    cfg['z_g'] = log(.02, 3)
    cfg['z_0'] = log(1e-5, .03)
    least = max(8., 2000 * cfg['max_h2o'])
    if r.random() < .85:
        rho = max(least, log(8, 749))
        z = max(log(.003, 10), 1.05 * small / rho)
        if r.random() < .4:
            z = max(small, cfg['thr'][0] * log(.1, 2)) / rho * 1.05
        sat = r.choice([0., 0., 1., r.random()])
        cold = 0. if r.random() < .3 else log(1e-3, 50)
        ic.update(z_s=z, rho=rho, h2o_sat=sat, t_s=FREEZE - cold)
        for k in ('t_s_0', 't_s_l'):
            ic[k] = min(FREEZE, r.choice([ic['t_s'], FREEZE, FREEZE - log(1e-3, 50), ic['t_s'] + r.uniform(-5, 5)]))
        cfg['max_z0'] = r.choice([log(.02, 5), z * log(.3, 3)])
    else:
        ic.update(z_s=0., rho=0., h2o_sat=0., t_s=FREEZE, t_s_0=FREEZE, t_s_l=FREEZE)
        cfg['max_z0'] = log(.02, 5)
    fixed = r.random() < .4
    for x in data:
        x.update(t_a=r.choice([r.uniform(225, 310), r.uniform(265, 280)]), u=r.choice([0., log(.01, 30), r.uniform(.5, 15)]),
                 S_n=r.choice([0., r.uniform(0, 1000)]), I_lw=r.uniform(90, 450),
                 t_g=r.choice([FREEZE, r.uniform(245, 295), ic['t_s']]),
                 m_pp=0., percent_snow=0., rho_snow=0.)
        x['e_a'] = min(1.2, log(.02, 2)) * sat_ice(x['t_a'])
        if r.random() < .5:
            x.update(m_pp=log(1e-5, 250), percent_snow=r.choice([0., 1., r.random(), log(1e-6, 1)]),
                     rho_snow=max(least, log(8, 600)), t_pp=r.choice([FREEZE, r.uniform(230, 305), r.uniform(268, 278)]))
        if fixed:
            x.update({k: data[0][k] for k in ('S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g')})
    top = ic['z_s'] + 1.5 + sum(x['m_pp'] * x['percent_snow'] / x['rho_snow'] for x in data if x['m_pp'] * x['percent_snow'] > 0)
    cfg['relative'] = r.random() < .4
    least = max(.05, 12 * cfg['z_0'])
    if not cfg['relative'] and r.random() < .3:
        top = ic['z_s']         # snow may reach them
    for k in ('z_u', 'z_t'):
        cfg[k] = log(least, 30.) if cfg['relative'] else top + log(least, 10)
    if r.random() < .2:
        cfg['z_t'] = cfg['z_u']


def near(r, cfg, ic, data):
    least = max(.03, 12 * cfg['z_0'])
    cfg['relative'] = r.random() < .3
    for k in ('z_u', 'z_t'):
        cfg[k] = (0 if cfg['relative'] else ic['z_s']) + 10 ** r.uniform(math.log10(least), .2)
    for x in data:
        if r.random() < .7:
            x['u'] = max(x['u'], r.uniform(1, 8))
        if r.random() < .7:
            x.update(m_pp=0., percent_snow=0., rho_snow=0.)


# the time a run starts is of no importance: turn of the year, leap days, clock changes, any zone or none
STARTS = [('2000-01-01 00:00', 'UTC'), ('1983-10-01 00:00', 'MST'), ('2003-12-31 21:15', 'Asia/Kolkata'),
          ('2004-02-28 18:00', 'UTC'), ('2021-03-13 20:00', 'US/Mountain'), ('2021-10-30 20:00', 'Europe/Zurich'),
          ('1969-12-31 12:00', 'UTC'), ('2019-07-04 11:59', 'Pacific/Auckland'), ('2024-02-29 06:00', None),
          ('2010-06-15 12:34:56', None)]


def lengthen(r, cfg, ic, data):
    """a long run of few divided steps: many data steps, dry spells, storms,
    snow that stays or comes and goes"""
    if r.random() < .4:
        cfg.update(steps=list(r.choice([(60, 15, 5), (60, 60, 60), (180, 60, 20), (60, 30, 10)])), nd=1,
                   thr=[r.choice([60., 20., 4.]), r.choice([4., 2.]), r.choice([1., 2.])])
        n = r.choice([60, 150, 300])
        more = weather(r, n, cfg['steps'][0] / 60., 'any', cfg)
        for i, x in enumerate(more):        # storms, not drizzle
            if i % 40 > 6:
                x.update(m_pp=0., percent_snow=0., rho_snow=0.)
        data += more
        top = ic['z_s'] + 2 + sum(x['m_pp'] * x['percent_snow'] / x['rho_snow'] for x in data
                                  if x['m_pp'] * x['percent_snow'] > 0)
        if not cfg['relative']:
            cfg['z_u'], cfg['z_t'] = [max(cfg[k], round(top + 1, 2)) for k in ('z_u', 'z_t')]


def echo(r, cfg, ic, data):
    """records that differ from the one before in a few things only"""
    keep = r.choice([.6, .9, 1.])
    if r.random() < .6 and not any(x['m_pp'] for x in data):
        data[0].update(m_pp=r.choice([1., 4., 12.]), percent_snow=r.choice([0., .5, 1.]), rho_snow=120.)
    keys = sorted(data[0])
    kind = ['percent_snow', 't_pp', 'rho_snow']
    for a, b in zip(data, data[1:]):
        new = r.sample(keys, 1) if keep == 1. and r.random() < .5 else r.sample(kind, 2) if keep == 1. else \
            [k for k in keys if r.random() > keep]
        was = dict(b)
        b.update({k: was[k] if k in new else a[k] for k in keys})
        if keep == 1. and 'percent_snow' in new:
            b['percent_snow'] = r.choice([x for x in (0., .3, 1.) if x != a['percent_snow']])
    for x in data:
        if x['percent_snow'] > 0 and x['rho_snow'] <= 0:
            x['rho_snow'] = 120.
    if not cfg['relative']:
        top = ic['z_s'] + 2 + sum(x['m_pp'] * x['percent_snow'] / x['rho_snow'] for x in data if x['rho_snow'] > 0)
        cfg['z_u'], cfg['z_t'] = [max(cfg[h], round(top, 2)) for h in ('z_u', 'z_t')]


def scenario(seed, fam='any', n=None):
    r = random.Random(seed)
    cfg = config(r, fam)
    if n is None:
        n = r.choice([4, 6, 10, 16])
        if cfg['steps'] == [60, 15, 1]:
            n = min(n, 6)
    ic = initial(r, cfg, fam)
    # sensors stay above the snow
    if not cfg['relative']:
        top = ic['z_s'] + 3
        cfg['z_u'] = max(cfg['z_u'], round(top + r.uniform(.5, 2), 2))
        cfg['z_t'] = max(cfg['z_t'], round(top + r.uniform(.5, 2), 2))
    hours = cfg['steps'][0] * cfg['nd'] / 60.
    data = weather(r, n + 1, hours, fam, cfg)
    if fam == 'rough':
        rough(r, cfg, data)
    if fam == 'limits':
        limits(r, cfg, ic, data)
    if fam == 'near':
        near(r, cfg, ic, data)
    if fam == 'vanish':
        vanish(r, cfg, ic, data)
    if fam == 'ties':
        ties(r, cfg, ic, data)
    sc = dict(id=str(seed), cfg=cfg, ic=ic, data=data)
    if fam in ('wide', 'spread'):
        (wide if fam == 'wide' else spread)(r, cfg, ic, data)
        # keep the number of run steps in hand
        steps = cfg['nd'] * cfg['steps'][0] // cfg['steps'][2]
        del data[max(2, min(len(data), 1 + (400 if fam == 'wide' else 120) // steps)):]
    if fam == 'long':
        lengthen(r, cfg, ic, data)
    cfg['start'] = list(random.Random('start%s' % seed).choice(STARTS))
    if fam not in ('aimed', 'limits', 'near', 'ties', 'rough', 'long') and random.Random('echo%s' % seed).random() < .2:
        echo(random.Random('echoes%s' % seed), cfg, ic, data)
    if fam == 'aimed':
        sc['aim'] = r.randrange(2**31)
    return sc
