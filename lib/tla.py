"""Running TLC with the F64 operators, and reading its verdict lines."""
import glob
import os
import re
import shutil
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'
DEPS = '/opt/veriftools/tla/CommunityModules-deps.jar'


class Machinery(Exception):
    """our own tools failed; says nothing about the code"""


def java_classes():
    """directory of the compiled overrides, compiled if missing or stale"""
    src = os.path.join(VERIF, 'java', 'F64Overrides.java')
    out = os.path.join(VERIF, 'build', 'java')
    cls = os.path.join(out, 'F64Overrides.class')
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        tmp = '%s.%d' % (out, os.getpid())
        os.makedirs(tmp, exist_ok=True)
        subprocess.run(['javac', '-cp', JAR, '-d', tmp, src], check=True,
                       capture_output=True)
        os.makedirs(out, exist_ok=True)
        for f in glob.glob(tmp + '/*.class'):
            os.replace(f, os.path.join(out, os.path.basename(f)))
        shutil.rmtree(tmp)
    return out


class Result(object):
    def __init__(self):
        self.generated = self.distinct = 0
        self.lines = []      # parsed "@@" lines
        self.error = None    # (kind, text) for a violated invariant
        self.depth = 0
        self.wall = 0.


_atom = re.compile(r'"((?:[^"\\]|\\.)*)"|(-?\d+)|(<<|>>|[][{},]|\|->)|([A-Za-z_]\w*)')


def parse_value(s):
    """the rendering of tuples, sets, records, strings, integers, booleans"""
    stack = [[]]
    for m in _atom.finditer(s):
        st, num, punct, word = m.groups()
        if punct in ('<<', '{', '['):
            stack.append([])
        elif punct in ('>>', '}'):
            x = stack.pop()
            stack[-1].append(x)
        elif punct == ']':
            x = stack.pop()
            stack[-1].append(dict(zip(x[0::2], x[1::2])))
        elif punct:
            pass
        elif st is not None:
            stack[-1].append(st)
        elif num is not None:
            stack[-1].append(int(num))
        else:
            stack[-1].append({'TRUE': True, 'FALSE': False}.get(word, word))
    return stack[0][0]


def f64(p):
    """a number printed as its two halves"""
    import struct
    return struct.unpack('>d', struct.pack('>ii', p[0], p[1]))[0]


def run(module, cfg, scratch, defs=None, workers=8, timeout=600, extra=(), heap='10g'):
    """check `module` (extended by a generated module if `defs` is given) under
    the configuration text `cfg`"""
    os.makedirs(scratch, exist_ok=True)
    name = module
    if defs is not None:
        name = 'Run' + module
        with open(os.path.join(scratch, name + '.tla'), 'w') as fh:
            fh.write('---- MODULE %s ----\nEXTENDS %s\n%s\n====\n' % (name, module, defs))
        path = os.path.join(scratch, name + '.tla')
    else:
        path = os.path.join(SPEC, module + '.tla')
    cfgp = os.path.join(scratch, name + '.cfg')
    with open(cfgp, 'w') as fh:
        fh.write(cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m',
           '-cp', ':'.join([java_classes(), JAR, DEPS]),
           '-DTLA-Library=' + SPEC,
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:F64Overrides',
           'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(scratch, 'meta'),
           '-noGenerateSpecTE', '-config', cfgp] + list(extra) + [path]
    t0 = time.time()
    r = Result()
    r.name = name
    out_path = os.path.join(scratch, name + '.out')
    with open(out_path, 'w') as out:
        try:
            p = subprocess.run(cmd, stdout=out, stderr=subprocess.STDOUT, cwd=scratch,
                               timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
    r.wall = time.time() - t0
    r.rc = rc
    r.out_path = out_path
    with open(out_path, errors='replace') as fh:
        other = []
        for line in fh:
            if line.startswith('"@@'):
                s = line.strip()[3:-1].replace('\\"', '"').replace('\\\\', '\\')
                r.lines.append(parse_value(s))
            else:
                other.append(line)
    text = ''.join(other)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text.replace(',', '')
                   if False else re.sub(r'(\d),(?=\d)', r'\1', text))
    if m:
        r.generated, r.distinct = map(int, m[-1])
    m = re.search(r'depth of the complete state graph search is (\d+)', text)
    if m:
        r.depth = int(m.group(1))
    r.text = text
    if rc == 'timeout':
        r.error = ('timeout', 'TLC did not finish within %d s' % timeout)
    elif rc == 12:
        m = re.search(r'Error: (Invariant|Action property|Temporal) ?(\w+)? ?.*', text)
        r.error = ('violated', m.group(0) if m else 'invariant violated')
    elif rc != 0:
        m = re.search(r'Error:.*(?:\n.*){0,12}', text)
        raise Machinery('TLC %s rc=%s: %s' % (name, rc, m.group(0) if m else text[-800:]))
    return r


def apalache(module, scratch, init, inv, length, timeout=600):
    """one obligation; a failure is one of the model, not of the code"""
    import shutil
    shutil.copy(os.path.join(SPEC, module + '.tla'), scratch)
    env = dict(os.environ, HOME=scratch)
    p = subprocess.run(['apalache-mc', 'check', '--out-dir=' + os.path.join(scratch, 'out'), '--cinit=ConstInit', '--next=Next', '--init=' + init,
                        '--inv=' + inv, '--length=%d' % length, module + '.tla'], cwd=scratch, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    text = p.stdout.decode(errors='replace')
    if p.returncode != 0 or 'The outcome is: NoError' not in text:
        raise Machinery('apalache %s %s => %s: %s' % (module, init, inv, text[-1500:]))
