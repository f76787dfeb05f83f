"""usage: drive.py OUT.tv JOB.json  -- record executions of the code in /repo
(runs under its interpreter).  One job, one output file; OUT.tv.json says what
was done."""
import json
import os
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tv     # noqa: E402


class Hang(BaseException):
    pass


def on_alarm(*_):
    raise Hang('no result after the time allowed for one case')


def cases(job):
    """the cases of a job: explicit, or seeds"""
    if 'cases' in job:
        for c in job['cases']:
            yield c
        return
    import gen
    seed = job['first']
    while True:
        fams = job['families']
        yield gen.scenario(seed, fams[seed // job['stride'] % len(fams)])
        seed += job['stride']


def main():
    out, spec = sys.argv[1:3]
    with open(spec) as fh:
        job = json.load(fh)
    t0 = time.time()
    done = {'cases': 0, 'steps': 0, 'skipped': 0, 'untraced': 0, 'agree': 0, 'failed': [], 'bad': []}
    traces = []
    try:
        import kinds
        handle = getattr(kinds, job['kind'])
    except BaseException as e:      # the code under test does not even load
        done['failed'].append({'id': 'import', 'error': '%s: %s' % (type(e).__name__, e)})
        handle = None
    signal.signal(signal.SIGALRM, on_alarm)
    limit = job.get('alarm', 40)
    t1 = time.time()
    for c in cases(job) if handle else ():
        signal.alarm(limit)
        try:
            tr = handle(c, job)
        except Hang as e:
            done['failed'].append({'id': c['id'], 'error': 'Hang: %s' % e, 'case': c})
            tr = None
        except BaseException as e:
            import traceback
            done['failed'].append({'id': c['id'], 'error': '%s: %s' % (type(e).__name__, e),
                                   'trace': traceback.format_exc()[-1500:], 'case': c})
            tr = None
        signal.alarm(0)
        done['cases'] += 1
        if tr is not None:
            done['steps'] += tr.pop('_steps', 1)
            done['skipped'] += tr.pop('_skip', 0)
            done['agree'] += tr.pop('_agree', 0)
            if '_bad' in tr:
                done['untraced'] += 1
                if tr['_bad'] and len(done['bad']) < 200:
                    done['bad'] += [list(b) + [c] for b in tr['_bad'][:20]]
            else:
                traces.append(tr)
        if len(done['failed']) >= 3 or time.time() - t1 > job.get('seconds', 1e9) \
                or done['steps'] >= job.get('steps', 1e9):
            break
    tv.dump(traces, out)
    done['wall'] = round(time.time() - t0, 2)
    with open(out + '.json', 'w') as fh:
        json.dump(done, fh)


if __name__ == '__main__':
    main()
