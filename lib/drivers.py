"""Running harness/drive.py under the interpreter of /repo, in parallel."""
import json
import os
import subprocess
import time

from tla import VERIF, Machinery

PYTHON = '/opt/venv/bin/python'
CORES = 8


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return e


def start(job, scratch, name):
    spec = os.path.join(scratch, name + '.job.json')
    out = os.path.join(scratch, name + '.tv')
    with open(spec, 'w') as fh:
        json.dump(job, fh)
    err = open(os.path.join(scratch, name + '.err'), 'wb')
    p = subprocess.Popen([PYTHON, os.path.join(VERIF, 'harness', 'drive.py'), out, spec],
                         stdout=err, stderr=err, env=env(), cwd=scratch)
    return {'p': p, 'out': out, 'name': name, 'err': err.name, 'job': job}


def finish(handles, timeout):
    """-> (files, summaries, failures); a failure is something the code under
    test did: an exception, a hang, a crash"""
    end = time.time() + timeout
    files, done, failed = [], [], []
    for h in handles:
        try:
            rc = h['p'].wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            h['p'].kill()
            h['p'].wait()
            rc = 'timeout'
        if rc == 0 and os.path.exists(h['out'] + '.json'):
            with open(h['out'] + '.json') as fh:
                d = json.load(fh)
            done.append(d)
            files.append(h['out'])
            for f in d['failed']:
                f['job'] = h['job']
                failed.append(f)
        else:
            with open(h['err'], errors='replace') as fh:
                tail = fh.read()[-1200:]
            if 'MemoryError' in tail and rc != 'timeout':
                raise Machinery('driver out of memory')
            failed.append({'id': h['name'], 'error': 'driver ended with %s: %s' % (rc, tail),
                           'job': h['job']})
    return files, done, failed
