"""Runs TLC and the drivers, and turns their results into verdicts."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable


class CheckError(Exception):
    """The check itself does not work (this is not a verdict)."""


class DriverDied(Exception):
    """The process that runs the code under test did not finish."""


def tlc(module, cfg, workdir, env=None, workers=4, timeout=600, heap='3g'):
    """Runs TLC; returns (complete, states, transitions, output lines)."""
    meta = tempfile.mkdtemp(dir=workdir)
    cmd = ['java', f'-Djava.io.tmpdir={meta}', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-cp', JARS,
           'tlc2.TLC', '-metadir', meta, '-workers', str(workers),
           '-noGenerateSpecTE', '-config', os.path.join(SPEC, cfg),
           os.path.join(SPEC, module + '.tla')]
    full = dict(os.environ)
    full.update(env or {})
    out = os.path.join(meta, 'out.txt')
    with open(out, 'w') as f:
        try:
            rc = subprocess.run(cmd, cwd=meta, env=full, stdout=f,
                                stderr=subprocess.STDOUT,
                                timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
    with open(out) as f:
        lines = f.read().split('\n')
    shutil.rmtree(meta, ignore_errors=True)
    gen = dist = 0
    for ln in lines:
        m = re.match(r'(\d+) states generated, (\d+) distinct', ln)
        if m:
            gen, dist = int(m.group(1)), int(m.group(2))
    ok = rc == 0 and any('No error has been found' in ln for ln in lines)
    return ok, dist, gen, lines


def printed(lines, tag):
    """The JSON values that the specification printed with a tag."""
    start = f'"{tag} '
    for ln in lines:
        if ln.startswith(start) and ln.endswith('"'):
            yield json.loads(json.loads(ln)[len(tag) + 1:])


def model_check(mc, workdir, tier):
    """Checks invariants and properties of a specification on its own."""
    module, cfg = mc
    ok, dist, gen, lines = tlc(module, cfg, workdir, workers=4,
                               timeout=600 if tier == 'quick' else 3000)
    if not ok:
        tail = '\n'.join(ln for ln in lines[-60:])
        raise CheckError(f'specification {module}/{cfg} does not hold:\n{tail}')
    return {'model': module, 'states': dist, 'transitions': gen}


def make_graph(gr, workdir):
    """Writes the state graph of a specification to a file."""
    module, cfg = gr
    ok, dist, gen, lines = tlc(module, cfg, workdir, workers=1)
    if not ok:
        raise CheckError(f'graph {module}/{cfg}:\n' + '\n'.join(lines[-40:]))
    path = os.path.join(workdir, f'graph-{module}-{cfg}.jsonl')
    n = 0
    with open(path, 'w') as f:
        for x in printed(lines, 'EDGE'):
            f.write(json.dumps(x) + '\n')
            n += 1
    if not n:
        raise CheckError(f'graph {module}/{cfg} has no edges')
    return path, {'model': module + ' (graph)', 'states': dist,
                  'transitions': n}


def drive(jobs, workdir, hashseed='0', timeout=400):
    """Runs jobs in a driver process; returns the traces."""
    fd, out = tempfile.mkstemp(dir=workdir, suffix='.jsonl')
    os.close(fd)
    env = dict(os.environ, PYTHONHASHSEED=hashseed,
               PYTHONDONTWRITEBYTECODE='1',
               PYTHONPYCACHEPREFIX=os.path.join(workdir, 'pyc'))
    env.pop('PYTHONPATH', None)
    try:
        p = subprocess.run([PY, os.path.join(HERE, 'gen.py'), out],
                           input=json.dumps(jobs), env=env, text=True,
                           cwd=workdir, timeout=timeout,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        err = p.stderr[-3000:]
    except subprocess.TimeoutExpired:
        err = 'timeout'
    if not os.path.exists(out + '.ok'):
        raise DriverDied(f'jobs {json.dumps(jobs)[:500]}: {err}')
    with open(out) as f:
        return [json.loads(ln) for ln in f]


PROC = {'op': 'proc'}


def join_processes(a, b):
    """One trace of what happened in one process and then in another."""
    proc = dict.fromkeys(a['evs'][0], '')
    proc.update(PROC, g=True)
    return dict(a, evs=a['evs'] + [proc] + b['evs'],
                script=dict(a['script'], ops=a['script']['ops'] + [PROC]
                            + b['script']['ops']))


def run_script(script, workdir):
    """Runs a script again, in as many processes as it took."""
    parts, ops = [], []
    for op in script['ops'] + [PROC]:
        if op == PROC:
            parts.append(ops)
            ops = []
        else:
            ops.append(op)
    done = None
    for i, ops in enumerate(parts):
        t = drive([{'script': dict(script, ops=ops)}], workdir,
                  '4321' if i else '0')[0]
        done = t if done is None else join_processes(done, t)
    return done


def validate(spec, traces, workdir, prop='', workers=4):
    """Checks traces against a specification.

    Returns (failures, tags, number of events that were checked)."""
    if prop:
        # Go on after what breaks other properties, if that is possible.
        try:
            return _validate(spec, traces, workdir, prop, workers)
        except CheckError:
            pass
    return validate_parts(spec, traces, workdir, workers)


def validate_parts(spec, traces, workdir, workers, depth=0):
    """Checks traces, apart from those that cannot be evaluated.

    The specification is defined for every event that it allows and for
    whatever the implementation usually does.  An event that it is not
    even defined for (say, one with parts that do not fit together) is
    none that it allows."""
    try:
        return _validate(spec, traces, workdir, '', workers)
    except CheckError as e:
        if 'valuat' not in str(e) and 'ttempted' not in str(e):
            raise
        if len(traces) == 1:
            return [{'trace': traces[0], 'line': len(traces[0]['evs']),
                     'state': str(e)[-1500:], 'clauses': [
                         ('any', 'an event that makes no sense')]}], {}, 0
    fails, tags, nev = [], {}, 0
    size = max(1, len(traces) // 8)
    for k in range(0, len(traces), size):
        f, t, n = validate_parts(spec, traces[k:k + size], workdir, workers,
                                 depth + 1)
        fails += f
        nev += n
        for a, b in t.items():
            tags[a] = tags.get(a, 0) + b
        if any(x['clauses'][0][1] == 'an event that makes no sense'
               for x in f):
            break                       # one is enough
    return fails, tags, nev


def _validate(spec, traces, workdir, prop, workers):
    fd, path = tempfile.mkstemp(dir=workdir, suffix='.json')
    with os.fdopen(fd, 'w') as f:
        json.dump([{'cfg': t['cfg'], 'evs': t['evs']} for t in traces], f)
    ok, dist, gen, lines = tlc(spec + 'Trace', spec + 'Trace.cfg', workdir,
                               {'TRACES': path, 'PROP': prop}, workers)
    os.unlink(path)
    if not ok:
        keep = [ln for ln in lines if not ln.startswith('"')]
        first = next((i for i, ln in enumerate(keep)
                      if ln.startswith('Error:')), 0)
        raise CheckError(f'{spec}Trace:\n' + '\n'.join(
            keep[first:first + 40]))
    fails, tags, done = {}, {}, set()
    for x in printed(lines, 'DONE'):
        done.add(x['t'])
        if any(tag[0] == '!' for tag in x['tags']):
            traces[x['t'] - 1]['crash'] = ''
        for tag in x['tags']:
            tags[tag] = tags.get(tag, 0) + 1
    for x in printed(lines, 'FAIL'):
        fails[x['t']] = x
    nev = 0
    for i, t in enumerate(traces, 1):
        if i in fails:
            nev += fails[i]['l']
        elif i in done or not t['evs']:
            nev += len(t['evs'])
        else:
            raise CheckError(f'{spec}Trace: trace {i} was not finished')
    res = [{'trace': traces[i - 1], 'line': x['l'],
            'clauses': sorted(map(tuple, x['f'])), 'state': x['s']}
           for i, x in sorted(fails.items())]
    for i, t in enumerate(traces, 1):
        if t.get('crash') and i not in fails:
            # An operation did not work, and nothing before it was wrong.
            res.append({'trace': t, 'line': len(t['evs']), 'state': None,
                        'clauses': [('any', 'does not go on: ' + t['crash'])]})
    return res, tags, nev


class Check:
    def __init__(self, pid, plan, tier, seed):
        self.pid, self.plan, self.tier, self.seed = pid, plan, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f'verif-{pid}-')
        self.models, self.tags, self.walks = [], {}, []
        self.ntraces = self.nevents = 0
        self.samples = []
        self.violations, self.known, self.others = [], [], {}

    def log(self, *a):
        print(*a, flush=True)

    # ------------------------------------------------------------ running

    def run(self):
        try:
            return self._run()
        finally:
            shutil.rmtree(self.work, ignore_errors=True)

    def _run(self):
        quick = self.tier == 'quick'
        plan = self.plan
        walks = plan.get('walks', [])
        if not quick:
            walks = plan.get('walks_thorough', walks)
        jobs = []                                    # (jobs, hash seed)
        for suite, (nq, nt) in plan.get('suites', {}).items():
            n = nq if quick else nt
            step = max(1, -(-n // 8))
            for lo in range(0, n, step):
                jobs.append(([{'suite': suite, 'seed': self.seed,
                               'tier': self.tier, 'lo': lo,
                               'hi': min(n, lo + step)}], '0'))
        kf_jobs = [k for k in load_known() if k['property'] == self.pid
                   and k['status'] == 'known']
        with cf.ThreadPoolExecutor(8) as ex:
            mcs = [ex.submit(model_check, m, self.work, self.tier)
                   for m in plan.get('mc', []) +
                   ([] if quick else plan.get('mc_thorough', []))]
            graphs = [(w, ex.submit(make_graph, g, self.work))
                      for w, g, *_ in walks]
            futs = [ex.submit(drive, j, self.work, h) for j, h in jobs]
            traces, died = [], []
            for f in futs:
                try:
                    traces += f.result()
                except DriverDied as e:
                    died.append(str(e))
            wf = []
            for (w, g, nq, nt), (_, gf) in zip(walks, graphs):
                path, info = gf.result()
                self.models.append(info)
                steps = nq if quick else nt
                for part in range(2):
                    st = os.path.join(self.work, f'stats-{w}-{part}.json')
                    wf.append((st, ex.submit(
                        drive, [{'walk': w, 'graph': path,
                                 'seed': f'{self.seed}.{part}',
                                 'steps': steps // 2, 'stats': st}],
                        self.work)))
            for st, f in wf:
                try:
                    traces += f.result()
                    with open(st) as fh:
                        self.walks.append(json.load(fh))
                except DriverDied as e:
                    died.append(str(e))
            for special in plan.get('special', []):
                try:
                    traces += special(self)
                except DriverDied as e:
                    died.append(str(e))
            kf = []
            for k in kf_jobs:
                try:
                    kf.append((k, run_script(k['script'], self.work)))
                except DriverDied as e:
                    died.append(str(e))
            self.check_traces(ex, traces)
            self.check_known(kf)
            for m in mcs:
                self.models.append(m.result())
        for d in died:
            self.violations.append({
                'line': 0, 'clauses': [(self.pid, 'the driver of the '
                                        'implementation did not finish')],
                'state': d, 'trace': {'script': None, 'evs': []}})
        return self.verdict()

    def check_traces(self, ex, traces):
        groups = {}
        for t in traces:
            groups.setdefault(t['spec'], []).append(t)
        futs = []
        for spec, ts in sorted(groups.items()):
            size = 3000
            for k in range(0, len(ts), size):
                futs.append((spec, ex.submit(validate, spec, ts[k:k + size],
                                             self.work, self.pid)))
            self.ntraces += len(ts)
            for t in ts[:1]:
                self.samples.append({'spec': spec,
                                     'label': t['script']['label'],
                                     'ops': t['script']['ops'][:6],
                                     'events': t['evs'][:3]})
        for spec, f in futs:
            fails, tags, nev = f.result()
            self.nevents += nev
            for k, v in tags.items():
                if k[0] == '!':
                    self.others[k[1:]] = self.others.get(k[1:], 0) + v
                    continue
                k = f'{spec}:{k}'
                self.tags[k] = self.tags.get(k, 0) + v
            for x in fails:
                mine = [c for c in x['clauses']
                        if c[0] in (self.pid, 'any')]
                for c in x['clauses']:
                    key = ': '.join(c)
                    if c not in mine:
                        self.others[key] = self.others.get(key, 0) + 1
                if mine:
                    x['clauses'] = mine
                    self.violations.append(x)

    def check_known(self, kf):
        for k, t in kf:
            fails, _, _ = validate(t['spec'], [t], self.work, self.pid, 1)
            for x in fails:
                mine = [c for c in x['clauses'] if c[0] == self.pid]
                if not mine:
                    continue
                if x['line'] == k['line'] and all(c[1] == k['clause']
                                                  for c in mine):
                    self.known.append(k)
                else:
                    x['clauses'] = mine
                    self.violations.append(x)

    # ------------------------------------------------------------ verdict

    def verdict(self):
        for k in self.known:
            self.log(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        outdir = os.path.join(VERIF, 'out')
        if self.violations:
            os.makedirs(outdir, exist_ok=True)
        shown = {}
        for x in self.violations:
            key = tuple(c[1] for c in x['clauses'])
            shown[key] = shown.get(key, 0) + 1
            if shown[key] > 2 or len(shown) > 8:
                continue
            doc = {'property': self.pid, 'clauses': x['clauses'],
                   'line': x['line'], 'state': x['state'],
                   'script': x['trace']['script'],
                   'events': x['trace']['evs'][:x['line']]}
            text = json.dumps(doc, indent=1)
            h = hashlib.sha256(text.encode()).hexdigest()[:10]
            path = os.path.join(outdir, f'{self.pid}-{h}.json')
            with open(path, 'w') as f:
                f.write(text + '\n')
            self.log(f'VIOLATION property={self.pid} replay={path}')
            for c in x['clauses']:
                self.log(f'  broken: {c[1]}')
            if x['line']:
                self.log(f"  at event {x['line']} of "
                         f"{x['trace']['script']['label']}: "
                         + json.dumps(x['trace']['evs'][x['line'] - 1])[:400])
        if self.others:
            self.log('(events of these traces that break other properties: '
                     + json.dumps(self.others) + ')')
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed,
            'level': 'model_checking',
            'coverage': {
                'states': sum(m['states'] for m in self.models),
                'transitions': sum(m['transitions'] for m in self.models),
                'traces_validated_against_impl': self.ntraces,
                'events_validated_against_impl': self.nevents,
                'models': self.models, 'walks': self.walks,
                'situations': dict(sorted(self.tags.items())),
                'samples': self.samples[:4]},
            'assumptions': self.plan.get('assumptions', []),
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'),
                  'w') as f:
            json.dump(ev, f, indent=1)
        self.log(f"{self.pid} {self.tier}: {self.ntraces} traces, "
                 f"{self.nevents} events, "
                 f"{ev['coverage']['states']} model states, "
                 f"{len(self.violations)} violations, {ev['wall_s']} s")
        return 1 if self.violations else 0


def load_known():
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(ln) for ln in f if ln.strip()]


def replay(pid, path):
    """Runs the script of a replay file again and shows the verdict."""
    with open(path) as f:
        doc = json.load(f)
    if not doc.get('script'):
        print(doc.get('state'))
        return 1
    work = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        t = run_script(doc['script'], work)
        fails, _, _ = validate(t['spec'], [t], work, '', 1)
        for x in fails:
            print(json.dumps(x['clauses']), 'at event', x['line'])
            for e in t['evs'][:x['line']]:
                print('  ', json.dumps(e))
            print('   state', json.dumps(x['state']))
        return 1 if any(c[0] in (pid, 'any') for x in fails for c in x['clauses']) else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
