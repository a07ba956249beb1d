"""Confirm planted bugs, in a scratch copy of /repo.

    tools/plant.py ID... [--checks C01,C02] [--no-tests]

For each seeded/<ID>: the patch applies, the demonstration succeeds without
it and fails with it, the stable tests still pass, and the check of the
property (or the given ones) reports it.
"""

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='agg',
           QT_QPA_PLATFORM='offscreen', PYTHONHASHSEED='0',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           OPENBLAS_CORETYPE='Haswell', LANG='C.UTF-8')
ENV.pop('PYTHONPATH', None)


def sh(cmd, cwd, timeout=900, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors='replace')
    return p.returncode, p.stdout


def tests(repo):
    base = json.load(open('/opt/vp/BASELINE.json'))
    work = tempfile.mkdtemp()
    try:
        sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
            'no:cacheprovider', '-p', 'no:xdist', '--timeout=300',
            '--continue-on-collection-errors', f'--basetemp={work}/tmp', '-o',
            'junit_family=xunit2', f'--junitxml={work}/junit.xml'], repo)
        sh(['python3', '/opt/vp/results.py', f'{work}/out.json',
            f'junit:{work}/junit.xml'], repo)
        out = json.load(open(f'{work}/out.json'))
    finally:
        shutil.rmtree(work)
    return base, out


def stable(base, out):
    names = base.get('stable') or base.get('tests') or base.get('passed')
    passed = out.get('passed') or [k for k, v in out.get('tests', {}).items()
                                   if v in ('pass', 'passed')]
    return sorted(set(names) - set(passed))


def one(name, checks, run_tests, extra):
    src = os.path.join(HERE, 'seeded', name)
    meta = json.load(open(os.path.join(src, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    repo = os.path.join(tmp, 'repo')
    demo = os.path.join(tmp, 'demo')
    lines = [f'{name} ({meta["property"]})']
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        shutil.copytree(src, demo, ignore=shutil.ignore_patterns(
            '*.diff', '*.patch', 'meta.json'))
        rc, out = sh(['bash', os.path.join(demo, 'demo.sh')], repo, 300)
        lines.append(f'  demo without: {rc}' + ('' if rc == 0 else
                                                ' BAD ' + out[-300:]))
        rc, out = sh(['git', 'apply', os.path.join(src, 'patch.diff')], repo)
        if rc:
            return '\n'.join(lines + ['  patch does not apply BAD ' + out])
        rc, out = sh(['bash', os.path.join(demo, 'demo.sh')], repo, 300)
        lines.append(f'  demo with: {rc}' + (' BAD' if rc == 0 else
                                             ' ' + out.strip()[-160:]))
        if run_tests:
            missing = stable(*tests(repo))
            lines.append('  tests: ' + ('ok' if not missing else
                                        f'BAD {missing}'))
        for prop in checks or [meta['property']]:
            start = time.time()
            rc, out = sh(['python3', os.path.join(HERE, 'dst/run.py'), prop,
                          '--no-evidence'] + extra, HERE, 1200,
                         dict(ENV, DST_REPO=repo, VERIF_SEED='1',
                              VERIF_TIER='quick'))
            found = [l for l in out.splitlines() if l.startswith(
                ('case', 'VIOLATION', 'HARNESS'))]
            lines.append(f'  {prop}: exit {rc} in {time.time() - start:.0f} s'
                         + ('' if rc == 1 else ' MISSED') + ' '
                         + (found[0][:200] if found else ''))
    finally:
        shutil.rmtree(tmp)
    return '\n'.join(lines)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('names', nargs='*')
    ap.add_argument('--checks')
    ap.add_argument('--no-tests', action='store_true')
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--args', default='')
    a = ap.parse_args()
    names = a.names or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    checks = a.checks.split(',') if a.checks is not None else None
    if checks == ['']:
        checks = None
    if checks == ['none']:
        checks = []
    with ThreadPoolExecutor(a.jobs) as pool:
        for res in pool.map(lambda n: one(
                n, [] if a.checks == 'none' else checks, not a.no_tests,
                a.args.split()), names):
            print(res, flush=True)
