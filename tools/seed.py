"""Checks planted bugs: python3 tools/seed.py [--checks] [--thorough] ID...

For each /verif/seeded/ID: the patch applies, the stable tests pass with it,
and demo.sh fails with it and passes without it; with --checks, which checks
report it (by default the one of its property; --all runs every check).
Works in copies of /repo under /tmp/seed.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/seed'
PY = '/opt/venv/bin/python'


def run(cmd, cwd, env=None, timeout=900):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout,
                          capture_output=True, text=True)


def stable():
    data = json.load(open('/opt/vp/BASELINE.json'))
    return data.get('stable_pass') or data.get('passed') or data


def one(name, checks, thorough):
    src = f'{VERIF}/seeded/{name}'
    meta = json.load(open(f'{src}/meta.json'))
    copy = f'{SCRATCH}/{name}'
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree('/repo', copy, symlinks=True)
    out = [name, meta['property']]
    try:
        demo = f'{SCRATCH}/{name}.demo'
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(src, demo, ignore=shutil.ignore_patterns(
            '*.diff', 'meta.json'))
        clean = run(['bash', f'{demo}/demo.sh'], copy)
        if clean.returncode:
            out.append('DEMO FAILS CLEAN: ' + (clean.stdout + clean.stderr)[-300:])
        ap = run(['git', 'apply', f'{src}/patch.diff'], copy)
        if ap.returncode:
            out.append('PATCH DOES NOT APPLY ' + ap.stderr[-200:])
            return out
        bad = run(['bash', f'{demo}/demo.sh'], copy)
        if not bad.returncode:
            out.append('DEMO PASSES WITH BUG')
        t = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                 '--timeout=120', '-x', 'tests'], copy,
                {'PYTHONPATH': f'{copy}/src'})
        last = t.stdout.strip().splitlines()[-1:] or ['?']
        if '567 passed' not in last[0]:
            fails = [x for x in t.stdout.splitlines() if x.startswith('FAILED')]
            out.append(f'TESTS {last[0]} {fails[:1]}')
        if checks and len(out) == 2:
            ids = [meta['property']] if checks == 'own' else [
                f'C{i:02}' for i in range(1, 24)]
            for c in ids:
                r = run([f'{VERIF}/check', c] + (['--thorough'] if thorough
                        else []), VERIF, {'VERIF_REPO': copy,
                        'VERIF_SEED': '1'}, 3000)
                v = [x for x in r.stdout.splitlines() if x.startswith('VIOL')]
                out.append(f'{c}:' + ('caught' if r.returncode == 1 and v else
                                      'missed' if not r.returncode else
                                      f'?{r.returncode} '
                                      + (r.stdout + r.stderr)[-300:]))
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(f'{SCRATCH}/{name}.demo', ignore_errors=True)
    return out


def main():
    args = sys.argv[1:]
    checks = 'all' if '--all' in args else 'own' if '--checks' in args else ''
    names = [a for a in args if not a.startswith('-')]
    names = names or sorted(os.listdir(f'{VERIF}/seeded'))
    os.makedirs(SCRATCH, exist_ok=True)
    jobs = 2 if checks else 8
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(one, n, checks, '--thorough' in args)
                for n in names]
        for f in futs:
            print(*f.result(), flush=True)


if __name__ == '__main__':
    main()
