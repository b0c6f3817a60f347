"""What all checks share: the runner, TLC, verdicts, evidence."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
TLA_CP = ('/opt/veriftools/tla/tla2tools.jar:'
          '/opt/veriftools/tla/CommunityModules-deps.jar')
PYPY = '/usr/bin/pypy3'


class MachineryError(Exception):
    pass


def enc(text):
    return [ord(i) for i in text]


def dec(codes):
    return ''.join(chr(i) if i >= 0 else '|' for i in codes)


def scratch():
    return tempfile.mkdtemp(prefix='alcheck-')


def run_jobs(jobs, workers=8, timeout=20, repo=None):
    """Run the jobs on the real code; returns {id: result}."""
    env = dict(os.environ, VERIF_WORKERS=str(workers),
               VERIF_JOB_TIMEOUT=str(timeout), PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8', PYTHONUTF8='1')
    env.pop('ALINT_IGNORE', None)
    data = '\n'.join(json.dumps(i) for i in jobs) + '\n'
    proc = subprocess.run(
        [PYPY, os.path.join(VERIF, 'harness', 'runner.py'), repo or REPO],
        input=data.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        env=env)
    if proc.returncode != 0:
        raise RunnerFailed(proc.stderr.decode('utf-8', 'replace')[-2000:])
    ret = {}
    for line in proc.stdout.decode().splitlines():
        res = json.loads(line)
        ret[res['id']] = res
    if len(ret) != len(jobs):
        raise MachineryError('{} of {} jobs answered'.format(len(ret), len(jobs)))
    return ret


class RunnerFailed(Exception):
    """The real code cannot even be imported."""


def tlc(module, config=None, env=None, workers=4, heap='4g', timeout=800,
        extra=(), spec_dir=None):
    """Run TLC; returns (output, stats)."""
    spec_dir = spec_dir or SPEC
    tmp = scratch()
    try:
        cmd = ['java', '-Djava.io.tmpdir=' + tmp, '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-XX:TieredStopAtLevel=4', '-Dtlc2.tool.queue.IStateQueue=MemStateQueue',
               '-cp', TLA_CP, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', tmp, '-noGenerateSpecTE',
               '-config', config or module + '.cfg'] + list(extra) + [module + '.tla']
        proc = subprocess.run(
            cmd, cwd=spec_dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            env=dict(os.environ, **(env or {})), timeout=timeout)
        out = proc.stdout.decode('utf-8', 'replace')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    stats = {'states': int(m.group(2)) if m else 0,
             'transitions': int(m.group(1)) if m else 0,
             'rc': proc.returncode}
    return out, stats


def tagged(out, tag):
    """The JSON values printed by PrintT("TAG " \\o ToJson(...))."""
    ret = []
    prefix = '"' + tag + ' '
    for line in out.splitlines():
        if line.startswith(prefix) and line.endswith('"'):
            body = line[len(prefix):-1]
            body = body.replace('\\"', '"').replace('\\\\', '\\')
            ret.append(json.loads(body))
    return ret


def require_clean(out, stats):
    if stats['rc'] != 0 or 'Model checking completed. No error' not in out:
        raise MachineryError('TLC failed:\n' + out[-4000:])


class Check(object):
    """One run of the check of one property."""
    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.start = time.time()
        self.rng = random.Random('{}-{}'.format(prop, SEED))
        self.coverage = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.samples = []
        self.findings = load_findings(prop)

    def count(self, key, n):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def violation(self, what, case):
        """what: short text; case: JSON-able, enough to replay."""
        for pattern, text in self.findings:
            if pattern in what:
                if text not in self.known:
                    self.known.append(text)
                return
        self.violations.append((what, case))

    def finish(self):
        for text in self.known:
            print('KNOWN-FINDING: property={} {}'.format(self.prop, text))
        evidence = {
            'property': self.prop, 'tier': TIER, 'seed': SEED,
            'level': self.level, 'coverage': self.coverage,
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.start, 2),
            'violations': len(self.violations)}
        if self.samples:
            evidence['coverage']['samples'] = self.samples[:6]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as fp:
            json.dump(evidence, fp, indent=1, sort_keys=True)
            fp.write('\n')
        if not self.violations:
            print('OK property={} {}'.format(self.prop, json.dumps(
                {k: v for k, v in self.coverage.items() if isinstance(v, (int, float))})))
            return 0
        replay = os.path.join(VERIF, 'evidence', self.prop + '.replay.json')
        with open(replay, 'w') as fp:
            json.dump([{'what': w, 'case': c} for w, c in self.violations[:20]], fp, indent=1)
        for what, _ in self.violations[:5]:
            print('  ' + what[:600])
        print('VIOLATION property={} replay={}'.format(self.prop, replay))
        return 1


def load_findings(prop):
    """Lines "finding: property=<id> match=<text> :: <description>"."""
    ret = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) match=(.*?) :: (.*)$', line.strip())
            if m and m.group(1) == prop:
                ret.append((m.group(2), m.group(3)))
    return ret
