"""The life of a file run: a fault of Lifecycle.tla is put in its place, the
run started as often as the specification does, and what happened compared
with what the specification allows."""
import contextlib
import io
import os
import random
import re
import shutil
import tempfile

import impl
import window
from pysnobal.point import Snobal
from pysnobal.pysnobal import PySnobal

OLD = 'what was here before\n' * 400
LOST = os.path.join('no', 'such', 'place')


def scene(c):
    """a run of three intervals with deep snow, its window somewhere in the file"""
    r = random.Random('life%s' % c['id'])
    before, after = r.choice([0, 1, 2]), r.choice([0, 1, 2])
    n = before + 4 + after
    order = list(range(n))
    if r.random() < .3:
        r.shuffle(order)
    w = {'id': 'life-%s' % c['id'], 'order': order, 'at': [2 * i for i in range(n)],
         'start': 2 * before, 'stop': 2 * before + 4,
         'fed': [(before + i, before + i + 1, 2 * (before + i + 1)) for i in range(3)]}
    b = window.build(w)
    b.update(omit=[], instance=r.random() < .3 and c['fault'] != ['kind', 'config'],
             zone='UTC', base='2004-02-28 05:00', extra_col=False)
    b['cfg'].update(relative=True, z_u=5., z_t=5., z_g=.5, thr=[60., 10., 1.])
    b['ic'].update(z_s=r.choice([3., 2., 5.]), rho=300., t_s_0=-5., t_s=-3., h2o_sat=0.)
    for y in b['rows']:            # nothing else may stop the run
        y.update(net_solar=r.choice([0., 100.]), incoming_thermal=250., air_temp=-3., vapor_pressure=300.,
                 wind_speed=r.choice([3., 1., 0.]), soil_temp=-1., precip_mass=r.choice([0., 2.]),
                 percent_snow=1., rho_snow=120., precip_temp=-3.)
    return w, b, before


def swap(text, pattern, new):
    out, n = re.subn(pattern, new, text, flags=re.M)
    if n != 1:
        raise RuntimeError('cannot place the fault %s' % pattern)
    return out


def spoil(c, w, b, before, ini, csv):
    """the fault, in the files; -> what is handed to PySnobal"""
    (kind, what), rec = c['fault'] or ('', ''), c['record']
    with open(ini) as fh:
        text = fh.read()
    with open(csv) as fh:
        lines = fh.read().splitlines()
    cols = lines[0].split(',')
    at = {i: j + 1 for j, i in enumerate(w['order'])}      # line of each row
    r = random.Random('spoil%s' % c['id'])

    def cell(row, col, value):
        x = lines[at[row]].split(',')
        x[cols.index(col)] = value
        lines[at[row]] = ','.join(x)
    if kind == 'missing':
        text = swap(text, r'^%s: .*\n' % what, '')
    elif kind == 'type':
        text = swap(text, r'^%s: .*$' % what, '%s: %s' % (what, r.choice(['abc', 'none at all'])))
    elif kind == 'option':
        text = swap(text, r'^%s: .*$' % what, '%s: %s' % (what, {'output_mode': 'some', 'time_zone': 'Mars/Base'}[what]))
    elif kind == 'window':
        text = text.replace('start_date', 'x').replace('end_date', 'start_date').replace('x:', 'end_date:')
    elif kind == 'column':
        cols[cols.index(what)] = 'no_' + what
        lines[0] = ','.join(cols)
    elif kind == 'cell':
        cell(before + r.randrange(3), what, 'warm')
    elif kind == 'empty':
        row = before + r.randrange(4)
        if what in ('percent_snow', 'rho_snow', 'precip_temp'):     # needed where it snows
            cell(row, 'precip_mass', '2.5')
            cell(row, 'percent_snow', r.choice(['0.8', '0.0', '1.0']))
        cell(row, what, r.choice(['', '', 'NaN', 'inf' if what != 'date_time' else '']))
    elif kind == 'rows':
        first, last = at[before], [at[before + 2], at[before + 3]]
        hole = at[before + r.choice([1, 2])]
        keep = {'one': [first], 'none': [], 'late': [i for i in range(1, len(lines)) if i != first],
                'early': [i for i in range(1, len(lines)) if i not in last + [at[j] for j in at if j > before + 3]],
                'gap': [i for i in range(1, len(lines)) if i != hole],
                'double': list(range(1, len(lines))) + [at[before + r.randrange(4)]]}[what]
        if what == 'late' and r.random() < .5:
            keep = [i for i in keep if i not in [at[j] for j in range(before)]]
        lines = lines[:1] + [lines[i] for i in keep]
    elif kind == 'row':
        i = at[before + r.choice([0, 1, 2, 3, 3, 3, 3, 3, 3])]
        lines[i] = lines[i] + ',1.0' * r.choice([1, 2]) if what == 'long' else ','.join(lines[i].split(',')[:3])
    elif kind == 'steps':
        (n, m, k), d = b['cfg']['steps'], b['cfg']['steps'][0] * b['cfg']['nd']
        if what == 'medium':
            m = k = r.choice([x for x in range(2, n + 2) if n % x])
        elif what == 'small':
            n, m, k = r.choice([(n, n, r.choice([x for x in range(2, n + 2) if n % x])), (n, n, 2 * n)])
        elif what == 'longer':
            m = k = r.choice([2, 3]) * n
        elif what == 'data':
            n = m = k = r.choice([x for x in range(2, 3 * d) if d % x])
        else:
            v = 0 if what == 'zero' else -1
            n, m, k = r.choice([(n, m, v * m), (n, v * n, v * n), (v * n, v * n, v * n), (n, v * n, k)])
        for name, x in (('norm', n), ('medium', m), ('small', k)):
            text = swap(text, r'^%s_time_step: .*$' % name, '%s_time_step: %d' % (name, x))
    elif kind == 'record':
        row = before + rec - 1
        if what == 'density':
            cell(row, 'rho_snow', '0.0')
            cell(row, 'percent_snow', '1.0')
            cell(row, 'precip_mass', '3.0')
        elif what == 'cold':
            cell(row, 'air_temp', '-300.0')
        else:
            cell(row, 'vapor_pressure', '0.0')
    elif (kind, what) == ('path', 'table'):
        text = swap(text, r'^input_csv: .*$', 'input_csv: nothing.csv')
    elif (kind, what) == ('path', 'output'):
        text = swap(text, r'^output_csv: .*$', 'output_csv: ' + LOST + '/out.csv')
    with open(ini, 'w') as fh:
        fh.write(text)
    with open(csv, 'w') as fh:
        fh.write('\n'.join(lines) + '\n' if (kind, what) != ('kind', 'table') else
                 r.choice(['', '\n', 'not a table\nat all\n', '\x00\x01\x02\n' * 40, lines[0] + '\n']))
    if (kind, what) == ('path', 'config'):
        return ini + '.none'
    if (kind, what) == ('kind', 'config'):
        return r.choice([None, {'files': {}}, 7])
    return window.config(ini) if b['instance'] else ini


def read(path):
    try:
        with open(path) as fh:
            return fh.read()
    except IOError:
        return None


def quietly(f):
    """-> result, error"""
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return f(), None
    except (Exception, SystemExit, KeyboardInterrupt) as e:
        return None, impl.describe(e)


@contextlib.contextmanager
def watched(passing, after, count):
    """the data steps are counted; the one meant raises"""
    real = Snobal.do_data_tstep

    def step(self, *args, **kw):
        count[0] += 1
        hit = passing and count[0] == passing[1]
        if hit and not after:
            raise {'error': MemoryError, 'interrupt': KeyboardInterrupt}[passing[0]]('on purpose')
        out = real(self, *args, **kw)
        if hit:
            raise {'error': MemoryError, 'interrupt': KeyboardInterrupt}[passing[0]]('on purpose')
        return out
    Snobal.do_data_tstep = step
    try:
        yield
    finally:
        Snobal.do_data_tstep = real


def normal(c):
    """the run with nothing wrong, on its own -> its output or None"""
    w, b, _ = scene(c)
    d = tempfile.mkdtemp(prefix='life-', dir=os.getcwd())
    try:
        ini, _ = window.write(b, w, d)
        count = [0]
        with watched(None, False, count):
            _, err = quietly(lambda: PySnobal(ini).run())
        return None if err or count[0] != 3 else read(os.path.join(d, 'out.csv'))
    finally:
        shutil.rmtree(d)


def life(c, job):
    w, b, before = scene(c)
    want = normal(c)
    if want is None:          # not for this property to tell
        return {'_bad': [], '_skip': 1}
    d = tempfile.mkdtemp(prefix='life-', dir=os.getcwd())
    bad = []
    home = os.getcwd()
    try:
        ini, csv = window.write(b, w, d)
        path = os.path.join(d, 'out.csv')
        if c['prior'] == 'old':
            with open(path, 'w') as fh:
                fh.write(OLD)
        handed, err = quietly(lambda: spoil(c, w, b, before, ini, csv))
        files = [read(ini), read(csv)]
        log, steps, texts = [], [0], []

        def note(e):
            now = read(path)
            disk = {None: 'none', OLD: 'old', want: 'new'}.get(now, 'other')
            log.append(['error' if e else 'done', disk])
            texts.append(e)
        ps = None
        if err is None:
            with watched(None, False, steps):
                ps, err = quietly(lambda: PySnobal(handed))
        if err:
            note(err)
        else:
            for p in c['passing']:
                count = [0]
                with watched(p, c['after'], count):
                    _, e = quietly(ps.run)
                steps[0] += count[0]
                note(e)
        if log not in c['logs']:
            bad.append(('C24', 'what a run with a fault leaves: %s' % '-'.join((c['fault'] or ['passing'])[:1]),
                        'one of %s' % c['logs'], '%s after %s; fault %s record %s, %s' % (
                            log, texts, c['fault'], c['record'], c['passing'])))
        if [read(ini), read(csv)] != files:
            bad.append(('C24', 'the configuration and the input are left as they were', '', str(c['fault'])))
        if c['config'] and steps[0]:
            bad.append(('C24', 'no step with a configuration that is refused', 0, '%d with %s' % (steps[0], c['fault'])))
    finally:
        os.chdir(home)
        shutil.rmtree(d)
    return {'_bad': bad, '_steps': steps[0]}
