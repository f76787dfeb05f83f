"""What each kind of job does with a case of it: -> recorded trace, or a dict
with '_bad', the disagreements with what the specification expects."""
import math
import struct
import warnings

import impl
from impl import num, small_int
from pysnobal.point import InputData, Snobal
from pysnobal.point.input import InputDeltas
from pysnobal.point.snow_state import SnowState

warnings.simplefilter('ignore')


def f64(p):
    return struct.unpack('>d', struct.pack('>ii', p[0], p[1]))[0]


def near(a, b, rel=1e-9, ab=1e-12):
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


class Bad(list):
    def near(self, prop, clause, want, got, rel=1e-9, ab=1e-12):
        got = num(got)
        if not near(want, got, rel, ab):
            self.append((prop, clause, repr(want), repr(got)))

    def same(self, prop, clause, want, got):
        if want != got:
            self.append((prop, clause, repr(want)[:200], repr(got)[:200]))


def trace(sc, job):
    tr = impl.run(sc, hx=True)
    tr['_steps'] = sum(len(d['steps']) for d in tr['data'])
    return tr


def behaviour(c, job):
    """a behaviour of SnobalMC: recorded for SnobalTrace, and does it end where
    the specification's does, all fed from its own results?"""
    tr = trace(c, job)
    w = c['want']
    last = [st['r'] for d in tr['data'] for st in d['steps']]
    swi, evap = sum(r['swi'] for r in last), sum(r['E_s'] for r in last)
    q = last[-1] if last else {}
    tr['_agree'] = int(bool(last) and q['layer_count'] == w['layer_count']
                       and all(near(w[k], q[k], 1e-4, 1e-5) for k in ('m_s', 'z_s', 'h2o', 't_s'))
                       and near(w['left'], swi, 1e-4, 1e-5) and near(w['vapour'], evap, 1e-3, 1e-5))
    return tr


def layers(c, job):
    """Layers.tla: one object, layers recomputed for changing contents"""
    bad = Bad()
    s = SnowState(max_z_s_0=f64(c['max_z0']), small_threshold=f64(c['thr']))
    for i, h in enumerate(c['hist']):
        s.z_s, s.rho, s.m_s = f64(h['z']), f64(h['rho']), f64(h['m'])
        s.calc_layers()
        where = 'after %d changes: ' % (i + 1)
        for p in ('C05', 'C06'):
            bad.same(p, where + 'number of layers', h['n'], s.layer_count)
            bad.same(p, where + 'snowcover', h['n'] > 0, bool(s.snowcover))
        z = f64(h['z']) if h['n'] else 0.
        bad.same('C05', where + 'depth', z, num(s.z_s))
        bad.same('C05', where + 'surface depth', f64(h['z0']), num(s.z_s_0))
        bad.same('C05', where + 'lower depth', f64(h['zl']), num(s.z_s_l))
        s.layer_mass()
        bad.same('C05', where + 'surface mass', f64(h['z0']) * f64(h['rho']), num(s.m_s_0))
        bad.same('C05', where + 'lower mass', f64(h['zl']) * f64(h['rho']), num(s.m_s_l))
    return {'_bad': bad, '_steps': len(c['hist'])}


BASE = dict(S_n=0., I_lw=250., t_a=270., e_a=300., u=2., t_g=272., m_pp=0.,
            percent_snow=0., rho_snow=0., t_pp=0.)


def precip(c, job):
    """Precip.tla: the split of one record"""
    r, w = {k: f64(v) for k, v in c['r'].items()}, c['want']
    bad = Bad()
    rec = dict(BASE, **r)
    given = dict(rec)
    try:
        d = InputData(rec)
    except Exception as e:
        if not w['refused']:
            bad.append(('C12', 'refused', 'accepted', repr(e)))
            bad.append(('C21', 'valid precipitation refused', 'accepted', repr(e)))
        return {'_bad': bad}
    if w['refused']:
        bad.append(('C21', 'snowfall without density', 'refused', 'accepted'))
        return {'_bad': bad}
    bad.same('C12', 'precipitation now', w['now'], bool(d.precip_now))
    for k in ('m_snow', 'm_rain', 'z_snow'):
        bad.near('C12', k, f64(w[k]), getattr(d, k))
    if w['now']:
        if f64(w['m_rain']) > 0:
            bad.near('C12', 'rain temperature', f64(w['t_rain']), d.t_rain)
        if f64(w['m_snow']) > 0:
            bad.near('C12', 'snow temperature', f64(w['t_snow']), d.t_snow)
            bad.same('C12', 'saturation of new snow', f64(w['sat']), num(d.h2o_sat_snow))
    bad.same('C14', 'record given to InputData changed', given, rec)
    return {'_bad': bad}


READS = {'t_a': 'sat_vp', 't_g': 'e_g', 't_s_0': 'e_s_0', 't_s_l': 'e_s_l'}


def cache(c, job):
    """Cache.tla: histories of writes and reads"""
    bad = Bad()
    places = c['places']
    t0 = 263.15
    if 't_a' in places:
        o = InputData(dict(BASE, t_a=t0, t_g=t0))
    else:
        o = SnowState(max_z_s_0=.25, small_threshold=1.)
        o.t_s_0 = o.t_s_l = t0
    for i, (op, p, t, want) in enumerate(c['hist']):
        t, want = f64(t), f64(want)
        if op == 'set':
            setattr(o, p, t)
        elif op == 'shift':
            if 't_a' in places:
                b = InputData(dict(BASE, t_a=t, t_g=t))
                info = [{'level': n, 'intervals_per_timestep': 1} for n in range(3)]
                o.add_deltas(InputDeltas(o, b, info).calculate()[0])
            else:
                o.set_from_dict({'t_s_0': t, 't_s_l': t})
        else:
            got = getattr(o, READS[p])
            bad.near('C22', 'operation %d: %s of %s' % (i + 1, READS[p], p), want, got, 1e-7)
    return {'_bad': bad, '_steps': len(c['hist'])}


# snowcovers standing for the classes of StepGrid.tla, thresholds 60, 10, 1
CLASSES = {
    2: [(0., 0.), (0.2, 350.), (0.2, 300.), (0.5, 300.), (0.6, 240.)],
    1: [(0.2, 100.), (0.05, 200.), (0.1, 599.), (0.35, 300.), (0.3, 240.)],
    0: [(0.02, 100.), (0.03, 300.), (0.255, 300.), (0.26, 300.)],
}
GRID_FORCING = (
    dict(S_n=10., I_lw=200., t_a=260., e_a=100., u=1., t_g=270., m_pp=24.,
         percent_snow=0.25, rho_snow=100., t_pp=273.16),
    dict(S_n=106., I_lw=320., t_a=284., e_a=148., u=13., t_g=276., m_pp=6.,
         percent_snow=1., rho_snow=200., t_pp=260.),
    dict(S_n=58., I_lw=296., t_a=272., e_a=340., u=7., t_g=270., m_pp=0.,
         percent_snow=0., rho_snow=0., t_pp=0.))
SHARED = ('m_pp', 'm_snow', 'm_rain', 'z_snow')
ENERGY = ('R_n', 'H', 'L_v_E', 'G', 'G_0', 'M', 'delta_Q', 'delta_Q_0')
MOVING = ('S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g')


class Script(object):
    """stands for the physics: the snowcover after each run step is the one of
    the behaviour; what the run step was given is recorded"""

    def __init__(self, case):
        self.case = case
        self.seen = []
        self.i = 0

    def attach(self, m):
        def energy():
            f = m.input1
            self.seen.append({k: num(getattr(f, k, None)) for k in MOVING + SHARED})
            for j, k in enumerate(ENERGY):
                setattr(m.snow_state, k, float((self.i + 1) * (j + 2) % 17))

        def mass():
            s = m.snow_state
            run = self.case['run']
            k = run[self.i][2] if self.i < len(run) else 2
            put(s, k, self.i + self.case['variant'])
            s.melt, s.E_s, s.swi = self.i + 1., .5 * self.i, 2. * self.i + 3
            self.i += 1
        m.energy_balance = energy
        m.mass_balance = mass


def put(s, k, variant):
    z, rho = CLASSES[k][variant % len(CLASSES[k])]
    s.z_s, s.rho, s.m_s = z, rho, z * rho
    s.calc_layers()
    s.layer_mass()


def grid(c, job):
    """StepGrid.tla: a behaviour replayed with scripted snowcovers"""
    bad = Bad()
    lens = c['lens']
    cfg = {'steps': lens, 'nd': c['normals'], 'thr': [60., 10., 1.], 'max_h2o': .01,
           'max_z0': .25, 'elevation': 2061., 'relative': True, 'z_u': 5., 'z_t': 5.,
           'z_g': .5, 'z_0': .005}
    ic = dict(z_s=0., rho=0., t_s_0=270., t_s=270., t_s_l=270., h2o_sat=0.)
    for mode in ('all', 'normal'):
        m = impl.model({'cfg': cfg, 'ic': ic}, mode)
        sc = Script(c)
        sc.attach(m)
        put(m.snow_state, c['first'], c['variant'])
        n = len(c['outs'])
        recs = [GRID_FORCING[(c['variant'] + i) % 3] for i in range(n + 1)]
        ins = [InputData(dict(r)) for r in recs]
        try:
            for a, b in zip(ins, ins[1:]):
                m.do_data_tstep(a, b)
        except AttributeError:
            return {'_bad': [], '_steps': 0, '_skip': 1}     # it needs more of the physics than stands in for it
        if sc.i == 0:
            return {'_bad': [], '_steps': 0, '_skip': 1}     # not structured this way any more
        check_grid(bad, c, mode, m, sc, recs)
        if bad:
            break
    return {'_bad': bad, '_steps': 2 * len(c['run'])}


def check_grid(bad, c, mode, m, sc, recs):
    lens, run, outs = [60 * x for x in c['lens']], c['run'], c['outs']
    D = lens[0] * c['normals']
    bad.same('C10', 'number of run steps', len(run), sc.i)
    if bad:
        return
    times = [impl.seconds(impl.START, r['date_time']) for r in m.output_list]
    bad.same('C10', 'model clock at the end', D * len(outs),
             impl.seconds(impl.START, m.current_datetime))
    ends, t, step = [], 0, 0
    for i, (e, a, b) in enumerate(outs):
        for j in range(a, b + 1):
            t += lens[run[j - 1][0] - 1]
            ends.append(t)
    if mode == 'all':
        bad.same('C10', 'times of the run steps', ends, times)
        bad.same('C13', 'one record per run step', len(run), len(times))
        groups = [(j, j) for j in range(1, len(run) + 1)]
    else:
        bad.same('C13', 'one record per data step', [60 * e for e, _, _ in outs], times)
        groups = [(a, b) for _, a, b in outs]
    if bad:
        return
    # forcing and share of each run step
    for i, (e, a, b) in enumerate(outs):
        r1, r2 = recs[i], recs[i + 1]
        snow = r1['m_pp'] * r1['percent_snow']
        total = {'m_pp': r1['m_pp'], 'm_snow': snow, 'm_rain': r1['m_pp'] - snow,
                 'z_snow': snow / r1['rho_snow'] if snow else 0.}
        for j in range(a, b + 1):
            seen = sc.seen[j - 1]
            x = 60. * run[j - 1][1] / D
            for k in MOVING:
                bad.near('C11', '%s in run step %d' % (k, j), r1[k] + (r2[k] - r1[k]) * x,
                         seen[k], 1e-9, 1e-9)
            for k in SHARED:
                bad.near('C11', 'share of %s in run step %d' % (k, j),
                         total[k] * lens[run[j - 1][0] - 1] / D, seen[k], 1e-9, 1e-12)
    # what the records report
    for rec, (a, b) in zip(m.output_list, groups):
        w = [lens[run[j - 1][0] - 1] for j in range(a, b + 1)]
        for q, name in enumerate(ENERGY):
            vals = [float(j * (q + 2) % 17) for j in range(a, b + 1)]
            bad.near('C13', 'mean of %s over run steps %d-%d' % (name, a, b),
                     sum(v * x for v, x in zip(vals, w)) / sum(w), rec[name + '_bar'], 1e-9, 1e-9)
        js = range(a, b + 1)
        for name, total in (('melt', sum(float(j) for j in js)), ('E_s', sum(.5 * (j - 1) for j in js)),
                            ('swi', sum(2. * j + 1 for j in js))):
            bad.near('C13', 'total of %s over run steps %d-%d' % (name, a, b), total,
                     rec[name + '_sum'], 1e-9, 1e-9)
        z, rho = CLASSES[run[b - 1][2]][(b - 1 + c['variant']) % len(CLASSES[run[b - 1][2]])]
        bad.near('C13', 'mass at the record time', z * rho, rec['m_s'], 1e-9, 1e-9)


def collect(m, n0, clock):
    out = []
    for rec in m.output_list[n0:]:
        out.append({'dt': impl.seconds(clock, rec['date_time']), 'r': impl.record(rec)})
        clock = rec['date_time']
    return out, clock


def advance(m, pair):
    """-> '' or the error that stopped the model"""
    try:
        m.do_data_tstep(*pair)
        return ''
    except Exception as e:
        return impl.describe(e)


def whole_run(sc, mode, parts=None, records=None):
    """-> (model, [records up to the end of each data step], error)"""
    m = impl.model(sc, mode, parts)
    recs = records or [dict(r) for r in sc['data']]
    a = InputData(recs[0])
    marks, err = [0], ''
    for r in recs[1:]:
        b = InputData(r)
        err = advance(m, (a, b))
        if err:
            break
        marks.append(len(m.output_list))
        a = b
    return m, marks, err


def same_lists(a, b):
    return len(a) == len(b) and all(x == y or repr(x) == repr(y) for x, y in zip(a, b))


def pairs(sc, job):
    """OutputTrace.tla: the same scenario in both modes, repeated with reused
    parts, and interleaved with another model"""
    import copy
    import gen
    parts = (impl.params(sc['cfg']), impl.tstep_info(sc['cfg']), impl.initial(sc),
             impl.heights(sc['cfg']))
    kept = copy.deepcopy(parts)
    recs = [dict(r) for r in sc['data']]
    a, ma, ea = whole_run(sc, 'all', parts, recs)
    params = repr(parts) == repr(kept)
    n, mn, en = whole_run(sc, 'normal')
    # again, parameters and records reused
    b, mb, eb = whole_run(sc, 'all', parts, recs)
    records = recs == sc['data']
    f, mf, ef = whole_run(sc, 'all')
    # two models, step about
    other = gen.scenario(int(sc['id']) + 7919, job['families'][0])
    m1, m2 = impl.model(sc, 'all'), impl.model(other, 'normal')
    i1 = [InputData(dict(r)) for r in sc['data']]
    i2 = [InputData(dict(r)) for r in other['data']]
    alive1 = alive2 = True
    for k in range(max(len(i1), len(i2)) - 1):
        if alive2 and k + 1 < len(i2):
            alive2 = not advance(m2, (i2[k], i2[k + 1]))
        if alive1 and k + 1 < len(i1):
            alive1 = not advance(m1, (i1[k], i1[k + 1]))
    tr = {'id': sc['id'], 'D': 60 * sc['cfg']['steps'][0] * sc['cfg']['nd'],
          'ends': ea == en and len(ma) == len(mn),
          'repeat': same_lists(a.output_list, f.output_list),
          'reuse': same_lists(a.output_list, b.output_list),
          'inter': same_lists(a.output_list, m1.output_list),
          'params': params, 'records': records, 'data': [],
          'thr': float(sc['cfg']['thr'][2]),
          'tags': ['levels%d' % (len(a.output_list) > len(ma) - 1)]}
    clock = nclock = impl.begin(sc['cfg'])
    before = impl.state(impl.model(sc).snow_state)
    for k in range(1, min(len(ma), len(mn))):
        st, clock = [], clock
        for rec in a.output_list[ma[k - 1]:ma[k]]:
            st.append({'dt': impl.seconds(clock, rec['date_time']), 'r': impl.record(rec)})
            clock = rec['date_time']
        no = [{'at': impl.seconds(nclock, rec['date_time']), 'r': impl.record(rec)}
              for rec in n.output_list[mn[k - 1]:mn[k]]]
        if no:
            nclock = n.output_list[mn[k] - 1]['date_time']
        tr['data'].append({'all': st, 'normal': no, 'm_pp': float(sc['data'][k - 1]['m_pp']),
                           'before': before})
        if st:
            before = st[-1]['r']
    tr['_steps'] = len(a.output_list) * 4
    return tr


# ---- direct calls of the physical relations (FunTrace.tla)

def _freezing(r):
    f = 273.16
    return r.choice([f, f, math.nextafter(f, 0) if hasattr(math, 'nextafter') else f - 6e-14,
                     f + 6e-14, f - 1e-6, f + 1e-6])


def _temp(r, lo=210., hi=315.):
    x = r.random()
    if x < .15:
        return _freezing(r)
    if x < .5:
        return r.uniform(263., 283.)
    return r.uniform(lo, hi)


def _press(r):
    return r.uniform(55000., 105000.)


def _relations(r):
    """name, function, sampler of arguments, also meant for arrays?"""
    from pysnobal.core import functions as fn, snow as sn
    from pysnobal.point import libsnobal as lb
    u = r.uniform

    def mass():
        return math.exp(u(-1, 8))
    out = []

    def add(name, module, sample, array=False, attr=None, call=None):
        f = call or getattr(module, attr or name, None)
        if f is not None:
            out.append((name, f, sample, array))
    add('sati', lb, lambda: (_temp(r),))
    add('satw', lb, lambda: (_temp(r, 250.),))
    add('spec_hum', lb, lambda: (u(1., 5000.), _press(r)), True)
    add('psi-m', lb, lambda: (r.choice([0., u(-20, 20), u(-1, 1), 1., u(-.01, .01)]),),
        call=lambda z: lb.psi(z, 'SM'))
    add('psi-h', lb, lambda: (r.choice([0., u(-20, 20), u(-1, 1), 1.]),),
        call=lambda z: lb.psi(z, 'SH'))
    add('psi-h', lb, lambda: (r.choice([0., u(-20, 20), u(-1, 1), 1.]),),
        call=lambda z: lb.psi(z, 'SV'))
    add('efcon', lb, lambda: (u(.01, 2.), _temp(r), _press(r)))
    add('ssxfr', lb, lambda: (u(.01, 2.), u(.01, 2.), _temp(r), _temp(r), u(.001, 2.), u(.05, 2.)), True)
    add('hysat', fn, lambda: (u(9e4, 1.1e5), u(250., 310.), r.choice([-6.5, -6.5, 0., -9.8, 4.]), u(0., 5.),
                              9.80665, 28.9644) if r.random() < .5 else
        (1.013246e5, 288., -6.5, u(-.4, 8.), 9.80665, 28.9644))
    for n in ('cp_ice', 'cp_water', 'lh_vap', 'lh_fus', 'lh_sub', 'k_to_c'):
        add(n, fn, lambda: (_temp(r),), True)
    add('time_average', fn, lambda: (u(-500, 500), r.choice([0., 60., 900., 3600., 7200.]), u(-500, 500),
                                     r.choice([60., 300., 900., 3600.])), True)
    add('gas_density', fn, lambda: (_press(r), r.choice([28.9644, 18.0153]), _temp(r)), True)
    add('virtual_temperature', fn, lambda: (_temp(r), u(1., 5000.), _press(r)), True)
    add('mix_ratio', fn, lambda: (u(1., 5000.), _press(r)), True)
    add('diffusion_coef', fn, lambda: (_press(r), _temp(r)), True)
    add('vapor_flux', fn, lambda: (u(.5, 1.5), u(1e-5, 1e-4), u(-.01, .01), u(.05, 1.)), True)
    add('h2o_left', sn, lambda: (u(0., 5.), u(20., 900.), r.choice([0., 1., u(0., .1)])), True)
    add('melt', sn, lambda: (u(0., 1e7),), True)
    add('new_tsno', sn, lambda: (mass(), _temp(r, 220., 273.16), r.choice([0., -math.exp(u(0, 16))])), True)
    add('heat_stor', sn, lambda: (u(1800., 4300.), mass(), u(-30., 30.)), True)

    def snow(*like):
        if isinstance(like[0], float):
            return SnowState()
        from pysnobal.spatial import SpatialSnowState
        return SpatialSnowState(like[0] * 0)

    def conductivity(rho):
        s = snow(rho)
        s.rho = rho
        return s.kts

    def dry(rho, vol):
        s = snow(rho)
        s.rho, s.h2o_vol = rho, vol
        return s.dry_snow_density

    def layer_temp(m, t, cc):
        s = snow(m)
        if isinstance(m, float):
            return sn.new_tsno(m, t, cc)
        return s.new_tsno(m, t, cc)
    if hasattr(SnowState, 'kts'):
        add('kts', None, lambda: (u(20., 600.),), True, call=conductivity)
    if hasattr(SnowState, 'dry_snow_density'):
        add('dry_snow_density', None, lambda: (u(120., 600.), r.choice([0., u(0., .1)])), True, call=dry)
    add('new_tsno', None, lambda: (mass(), _temp(r, 220., 273.16), r.choice([0., -math.exp(u(0, 16))])), True,
        call=layer_temp)
    return out


def _call(f, args):
    try:
        return f(*args), ''
    except Exception as e:
        return None, impl.describe(e)


def _shape(r, n):
    """any shape of n cells"""
    return r.choice([(n,), (n, 1), (1, n)] + ([(2, n // 2), (n // 2, 2), (2, 1, n // 2)] if n % 2 == 0 else []))


def _laid_out(x, how):
    """the same array in another order of memory"""
    import numpy as np
    if how == 'columns':
        return np.asfortranarray(x)
    if how == 'backwards':
        return x[::-1].copy()[::-1]
    if how == 'apart':
        y = np.full((2,) + x.shape, 1e9)
        y[0] = x
        return np.moveaxis(np.moveaxis(y, 0, -1).copy(), -1, 0)[0]
    return x


def _of_array(name, f, args, shape, r, labels=True):
    """a relation called with arrays for its arguments: plain ones, ones with
    other strides, of integers, labelled ones (xarray), single numbers for what is the same
    in all cells, cells without a value"""
    import numpy as np
    labelled, how = labels and r.random() < .25, r.choice(['plain', 'plain', 'columns', 'backwards', 'apart'])
    args = [list(x) for x in args]
    width = len(args[0])
    single = set()
    if width > 1 and r.random() < .4 and f.__name__ not in ('conductivity', 'dry', 'layer_temp'):
        single = set(r.sample(range(width), r.randrange(1, width)))
        for x in args:
            for i in single:
                x[i] = args[0][i]
    whole = None
    if r.random() < .15:            # arrays of integers
        whole = [all(abs(x[i]) > 20. for x in args) for i in range(width)]
        args = [[float(round(v)) if w else v for v, w in zip(x, whole)] for x in args]
    elif r.random() < .3 and len(args) > 1:
        for x in r.sample(args, max(1, len(args) // 4)):
            x[r.choice([i for i in range(width) if i not in single])] = float('nan')
    cols = [float(x[0]) if i in single else _laid_out(np.array(x).reshape(shape), how)
            for i, x in enumerate(zip(*args))]
    if whole:
        cols = [x if i in single or not whole[i] else x.astype(int) for i, x in enumerate(cols)]
    if labelled and len(shape) < 3:
        import xarray as xr
        cols = [x if i in single else xr.DataArray(x, dims=['y', 'x'][:len(shape)]) for i, x in enumerate(cols)]
    before = [np.array(x) for x in cols]
    out, err = _call(f, cols)
    got = np.asarray(out) if not err else np.zeros(0)
    if not err and got.shape != shape:
        got = got.ravel()[:0]
    return {'fn': name, 'a': args, 'out': [num(x) for x in np.ravel(got)], 'raised': err, 'many': True,
            'same': all(np.array_equal(x[x == x], y[y == y]) and np.array_equal(x == x, y == y)
                        for x, y in zip(map(np.asarray, cols), before))}


def _exchange_args(r):
    import gen
    u = r.uniform
    press = _press(r)
    z0 = r.choice([.005, .005, .001, .0001, .02])
    za, zu = r.choice([(5., 5.), (u(2, 10), u(2, 10)), (u(.5, 2), u(.5, 2))])
    zq = za if r.random() < .8 else u(1.5, 10)
    ta = _temp(r, 235., 303.)
    ts = min(273.16, ta + r.choice([u(-15, 10), u(-2, 2), u(-.2, .2)])) if r.random() < .9 else _temp(r, 235., 290.)
    x = r.random()
    if x < .1:                     # neutral
        ts = ta + 9.80665 / 1.005e3 * za
    es = gen.sat_ice(ts)
    # air near saturation over ice, water, or dry; up to 25 Pa above is allowed
    ea = r.choice([u(.05, 1.) * gen.sat_ice(ta), gen.sat_ice(ta), gen.sat_ice(ta) + u(0, 20)])
    if x > .95:
        ea = es
    wind = r.choice([0., u(.3, 2), u(1, 8), u(5, 25)])
    if .1 < x < .35:               # about where buoyancy changes sign, or very stable
        k = 9.80665 / 1.005e3 * za
        if x < .2:
            ts = ta + k + u(-.3, .3)
        else:
            ts = ta - u(2, 20)
            wind = u(.3, 3.)
        es = gen.sat_ice(ts)
    elif .35 < x < .5:             # where the iteration has trouble
        z0 = .02
        wind = u(.25, .6)
        ts = ta + u(3, 40)
        es = gen.sat_ice(ts)
    elif .5 < x < .6:
        zu = u(.5, 1.)
        za = zq = u(1.3, 2.2)
        ts = ta - u(2, 12)
        wind = u(.8, 2.)
        es = gen.sat_ice(ts)
    return [press, ta, ts, za, ea, es, zq, wind, zu, z0]


def _spoil(r, a):
    a = list(a)
    what = r.choice(['za', 'zq', 'zu', 'z0', 'ta', 'ts', 'ea', 'es', 'press', 'ea-press', 'es-press'])
    i = {'press': 0, 'ta': 1, 'ts': 2, 'za': 3, 'ea': 4, 'es': 5, 'zq': 6, 'zu': 8, 'z0': 9}
    if what in ('za', 'zq', 'zu'):
        a[i[what]] = r.choice([a[9], a[9] / 2, 0., -1., -3.])
    elif what == 'ea-press':
        a[4] = a[0] * r.choice([1., 1.2])
        a[1] = 380.                # not refused for saturation instead
    elif what == 'es-press':
        a[5] = a[0] * r.choice([1., 1.5])
    elif what == 'press':
        a[0] = r.choice([0., -1000.])
    else:
        a[i[what]] = r.choice([0., -1., -250.])
    return a, what


def fun(c, job):
    import random
    import numpy as np
    from pysnobal.point import libsnobal as lb
    r = random.Random(c['id'])
    calls = []
    rel = _relations(r)
    u = r.uniform
    from pysnobal.core import functions as fn
    near = None
    for _ in range(30):
        name, f, sample, array = again if near and r.random() < .35 else r.choice(rel)
        again = name, f, sample, array
        n = r.choice([0, 0, 0, 1, 4, 6, 6, 24]) if array else 0
        args = [tuple(map(float, sample())) for _ in range(n or 1)]
        if n == 0 and near and near[0] == name and name not in ('satw', 'time_average'):
            # next to what was asked before, in one argument or all
            old = near[1]
            k, by = r.randrange(len(old) + 1), r.choice([1e-3, 1e-4, 1e-6]) * r.uniform(-1, 1)
            args = [tuple(x * (1 + by) if k in (i, len(old)) else x for i, x in enumerate(old))]
        near = (name, args[0]) if n == 0 else None
        if n == 0:
            out, err = _call(f, args[0])
            calls.append({'fn': name, 'a': [list(x) for x in args], 'out': [num(out)] if not err else [],
                          'raised': err, 'same': True, 'many': False})
        else:
            calls.append(_of_array(name, f, args, _shape(r, n), r))
    # air pressure of a terrain
    fixed = u(9e4, 1.1e5), u(250., 310.), r.choice([-6.5, 0., -9.8])
    hs = [(r.uniform(0., 5.),) for _ in range(6)]
    p = _of_array('hysat', lambda h: fn.hysat(fixed[0], fixed[1], fixed[2], h, 9.80665, 28.9644), hs,
                  _shape(r, 6), r)
    p['a'] = [list(fixed) + [h, 9.80665, 28.9644] for h, in p['a']]
    calls.append(p)
    # array forms of saturation
    for name, fnname in (('sati', 'sati_np'), ('satw', 'satw_np')):
        f = getattr(lb, fnname, None)
        if f is not None:
            n = r.choice([1, 6, 6, 24])
            calls.append(_of_array(name, f, [(-u(1., 300.),) if r.random() < .02 else
                                             (_temp(r),) if name == 'sati' else (_temp(r, 250.),) for _ in range(n)],
                                   _shape(r, n), r, False))
    ts = sorted(set([r.uniform(215., 310.) for _ in range(5)] + [273.16, 273.16 - r.random() * .1 - .01,
                                                                 273.16 + r.random() * .1 + .01]))
    out, err = _call(lambda: [num(lb.sati(x)) for x in ts], ())
    calls.append({'fn': 'rising', 'a': [[x] for x in ts], 'out': out or [], 'raised': err})
    # turbulent exchange
    for _ in range(24):
        a, note = _exchange_args(r), ''
        if r.random() < .15:
            a, note = _spoil(r, a)
        start, has = [0., 0.], False
        if r.random() < .4 and not note:
            # a solution of another time as starting guess
            b = _exchange_args(r)
            o, err = _call(lb.hle1, b)
            if not err and math.isfinite(num(o[4])) and num(o[4]) > 0:
                start, has = [num(o[4]), num(o[5])], True
        out, err = _call(lambda *x: lb.hle1(*x, init_ustar=start[0], init_factor=start[1]) if has
                         else lb.hle1(*x), a)
        outs = [num(x) for x in out] if not err else [0.] * 6
        calls.append({'fn': 'hle1', 'a': [a], 'out': outs, 'raised': err, 'start': start, 'has': has,
                      'note': note})
    return {'id': c['id'], 'calls': calls, '_steps': len(calls)}


def window(c, job):
    import window as w
    return w.window(c, job)


def life(c, job):
    import life as x
    return x.life(c, job)


def division(c, job):
    import division as x
    return x.division(c, job)


SCALE = {'R_n': 1., 'H': -2., 'L_v_E': .5, 'G': 3., 'G_0': -.25, 'M': 1.5, 'delta_Q': 10., 'delta_Q_0': -7.,
         'E_s': .125, 'melt': 2.5, 'swi': -.75}


def averages(c, job):
    """Averages.tla: means and totals between records, of single values and of
    the cells of an array"""
    import numpy as np
    bad = Bad()
    cells = len(c['hist'][0][2])

    def follow(hist, s, wrap, unwrap, prop, what):
        for i, (fresh, kept, w, n, num_, time_, total) in enumerate(hist):
            where = 'step %d%s' % (i + 1, ' of an interval' if not fresh else '')
            if not kept:
                for k, f in SCALE.items():
                    setattr(s, k, wrap([f * x for x in w]))
            if fresh:
                s.value_to_bar()
            else:
                s.time_average(60. * before, 60. * n)
            before = time_
            for k, f in SCALE.items():
                if k in impl.FLUX and impl.FLUX[k].endswith('_bar'):
                    want, name = [f * x / time_ for x in num_], 'mean of ' + k
                else:
                    want, name = [f * x for x in total], 'total of ' + k
                got = unwrap(getattr(s, impl.FLUX[k]))
                own = unwrap(getattr(s, k))
                if len(got) != len(want) or any(not near(x, y, 1e-9, 1e-9) for x, y in zip(want, got)):
                    bad.append((prop, '%s, %s' % (what, name), '%s: %s' % (where, want), repr(got)))
                if own != [f * x for x in w]:
                    bad.append((prop, '%s, %s of the step itself' % (what, k),
                                '%s: %s' % (where, [f * x for x in w]), repr(own)))
    grid = c['hist']
    j = c['cell']
    follow([[h[0], h[1], [h[2][j]], h[3], [h[4][j]], h[5], [h[6][j]]] for h in grid],
           SnowState(), lambda v: v[0], lambda v: [num(v)], 'C13', 'one cell')
    try:
        from pysnobal.spatial import SpatialSnowState
    except ImportError:
        return {'_bad': bad, '_steps': len(grid)}
    shape = (cells,) if j % 2 else (2, cells // 2)

    def wrap(v):
        return np.array(v, dtype=float).reshape(shape)
    try:
        follow(grid, SpatialSnowState(np.zeros(shape)), wrap, lambda v: [num(x) for x in np.ravel(v)], 'C25', 'array')
    except Exception as e:
        bad.append(('C25', 'means and totals of arrays', 'computed', impl.describe(e)))
    return {'_bad': bad, '_steps': len(grid)}

