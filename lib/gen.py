"""Runs drivers against the implementation and writes the traces.

A process of its own, with limits on memory, because what it runs is the
code under test.  Jobs come as JSON on stdin: a list of
  {"suite": name, "seed": s, "tier": t, "lo": a, "hi": b}   random traces
  {"walk": name, "graph": path, "seed": s, "steps": n}      graph walks
  {"script": {...}}                                         one replay
"""
import importlib
import json
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'drivers'))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))
sys.dont_write_bytecode = True

import base                                                  # noqa: E402

MODULES = ['choice', 'fixed', 'memo', 'freq', 'texts', 'wraps', 'profiles',
           'tree', 'ranges', 'far', 'zones',
           'groups', 'deprecs', 'dists']
SUITES, DRIVERS, WALKS = {}, {}, {}


def load(only=None):
    for name in (only or MODULES):
        mod = importlib.import_module(name)
        SUITES.update(getattr(mod, 'SUITES', {}))
        WALKS.update(getattr(mod, 'WALKS', {}))
        for k, v in vars(mod).items():
            if k.endswith('Driver'):
                DRIVERS[k] = v


def replay(script):
    t = base.Trace(DRIVERS[script['driver']], script['cfg'],
                   script.get('label', ''))
    try:
        for op in script['ops']:
            t.do(op)
    except base.Stop:
        pass
    return t


def run(job, out):
    if 'script' in job:
        traces = [replay(job['script'])]
    elif 'walk' in job:
        import walk
        traces = walk.run(job, DRIVERS, WALKS)
    else:
        fn = SUITES[job['suite']]
        traces = []
        for i in range(job['lo'], job['hi']):
            if len(base.HANGS) > 7:
                # There are enough failures, and more would take forever.
                break
            base.Trace.last = None
            try:
                t = fn(base.rnd(job['seed'], job['suite'], i), i, job['tier'])
            except Exception as e:      # noqa: the code under test, likely
                t = base.Trace.last
                if t is None:
                    raise
                t.crash = t.crash or f'{type(e).__name__}: {e}'
            if t is not None:
                t.label = t.label or f"{job['suite']}#{i}"
                traces.append(t)
    for t in traces:
        d = t.dump()
        d['spec'] = t.driver.spec
        json.dump(d, out)
        out.write('\n')
    return len(traces)


def main():
    outpath = sys.argv[1]
    jobs = json.load(sys.stdin)
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    sys.setrecursionlimit(3000)
    base.install_alarm()
    base.quiet_warnings()
    import fauxdoc
    where = os.path.realpath(fauxdoc.__file__)
    assert where.startswith(os.path.realpath(REPO) + '/src/'), where
    load()
    t0 = time.time()
    with open(outpath, 'w') as out:
        for job in jobs:
            run(job, out)
    with open(outpath + '.ok', 'w') as f:
        json.dump({'wall': time.time() - t0}, f)


if __name__ == '__main__':
    main()
