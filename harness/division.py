"""Lengths of run steps and of the data as Division.tla has them: a file run
with them is refused, or its records have the times the specification says."""
import os
import random
import shutil
import tempfile

import impl
import life
import window
from pysnobal.pysnobal import PySnobal


def division(c, job):
    r = random.Random('division%s' % c['id'])
    n = c['n']
    w = {'id': 'division-%s' % c['id'], 'order': list(range(n + 1)), 'at': [2 * i for i in range(n + 1)],
         'start': 0, 'stop': 2 * n - 2, 'fed': [(i, i + 1, 2 * i + 2) for i in range(n)]}
    b = window.build(w)
    b.update(omit=[], instance=r.random() < .3, zone='UTC', base='2004-02-28 05:00', extra_col=False, mode='all')
    b['cfg'].update(relative=True, z_u=5., z_t=5., z_g=.5, thr=[60., 10., 1.], steps=[c['data']] * 3, nd=1, max_z0=.25)
    b['ic'].update(z_s={0: 3., 1: .1, 2: .02}[c['level']], rho=300., t_s_0=-5., t_s=-5., h2o_sat=0.)
    for y in b['rows']:            # no melt and hardly any vapour
        y.update(net_solar=0., incoming_thermal=250., air_temp=-5., vapor_pressure=400., wind_speed=1.,
                 soil_temp=-5., precip_mass=0., percent_snow=0., rho_snow=0., precip_temp=0.)
    want = [60 * t for t in c['ends']]
    d = tempfile.mkdtemp(prefix='division-', dir=os.getcwd())
    try:
        ini, _ = window.write(b, w, d)
        with open(ini) as fh:
            text = fh.read()
        for name, x in zip(('norm', 'medium', 'small'), c['lengths']):
            text = life.swap(text, r'^%s_time_step: .*$' % name, '%s_time_step: %d' % (name, x))
        with open(ini, 'w') as fh:
            fh.write(text)
        got = []

        def go():
            ps = PySnobal(window.config(ini) if b['instance'] else ini)
            ps.run()
            got.extend(ps.snobal.output_list)
        _, err = life.quietly(go)
        left = os.path.exists(os.path.join(d, 'out.csv'))
    finally:
        shutil.rmtree(d)
    what = 'steps of %s min, data every %d min, level %d' % (c['lengths'], c['data'], c['level'])
    bad = []
    if c['fits'] and err:
        bad.append(('C10', 'lengths that divide evenly are accepted', what, repr(err)[:200]))
    elif c['fits']:
        start = window.when(b, w['start']).tz_localize(b['zone'])
        at = [impl.seconds(start, x['date_time']) for x in got]
        if at != want:
            bad.append(('C10', 'times of the run steps, %s' % what, want[:20], at[:20]))
    elif not err:
        bad += [(p, 'lengths that do not divide evenly are refused', 'an error, with ' + what,
                 '%d records' % len(got)) for p in ('C10', 'C24')]
    elif left:
        bad.append(('C24', 'no output table of a run that is refused', 'none', 'a table, with ' + what))
    return {'_bad': bad, '_steps': len(got)}

