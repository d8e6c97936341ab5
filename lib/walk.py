"""Walks the state graph of a specification with the real implementation.

The graph comes from TLC: for every state, the events that the
specification allows.  An event consists of an operation (the input) and
what was observed (the output).  The walk applies operations to real
objects and follows the edge with the observed output.  It prefers
operations that have been used least in the current state, so that it
covers every operation in every state that the implementation gets to.
Whether outputs are right is decided by the specification afterwards, like
for any other trace.
"""
import json
import random

import base


class Graph:
    def __init__(self, path):
        self.init = []
        self.edges = {}          # state -> op key -> output key -> state
        self.ops = {}            # op key -> event fields
        self.nedges = 0

    def load(self, path, split):
        seen = set()
        with open(path) as f:
            for line in f:
                x = json.loads(line)
                fk = json.dumps(x['f'], sort_keys=True)
                tk = json.dumps(x['t'], sort_keys=True)
                if x['lv'] == 1 and fk not in seen:
                    seen.add(fk)
                    self.init.append((fk, x['f']))
                opk, outk, op = split(x['e'])
                d = self.edges.setdefault(fk, {}).setdefault(opk, {})
                self.ops[opk] = op
                if outk not in d:
                    d[outk] = tk
                    self.nedges += 1
        return self


def default_split(outputs):
    def split(ev):
        op = {k: v for k, v in ev.items() if k not in outputs and k != 'obs'}
        out = {k: ev[k] for k in outputs if k in ev}
        return (json.dumps(op, sort_keys=True),
                json.dumps(out, sort_keys=True), op)
    return split


def run(job, drivers, walks):
    w = walks[job['walk']]
    rng = random.Random(f"{job['seed']}/{job['walk']}")
    split = w['split'] if 'split' in w else default_split(w['outputs'])
    g = Graph(job['graph']).load(job['graph'], split)
    inits = g.init
    used = {}
    hit = set()
    traces = []
    total = 0
    while total < job['steps'] and len(traces) < job['steps']:
        key, state = rng.choice(inits)
        cfg = w['cfg'](state, rng) if 'cfg' in w else {}
        t = base.Trace(drivers[w['driver']], cfg)
        t.label = f"walk {job['walk']} {len(traces)}"
        traces.append(t)
        try:
            for op in w['setup'](state, rng) if 'setup' in w else []:
                t.do(op)
        except base.Stop:
            continue
        for _ in range(w.get('length', 12)):
            ops = g.edges.get(key)
            if not ops or total >= job['steps']:
                break
            best = min(used.get((key, o), 0) for o in ops)
            opk = rng.choice([o for o in sorted(ops)
                              if used.get((key, o), 0) == best])
            used[key, opk] = used.get((key, opk), 0) + 1
            op = w['op'](g.ops[opk], rng) if 'op' in w else dict(g.ops[opk])
            try:
                ev = t.do(op)
            except base.Stop:
                break
            total += 1
            _, outk, _ = split(ev)
            nxt = ops[opk].get(outk)
            if nxt is None:
                break            # the specification will say what is wrong
            hit.add((key, opk, outk))
            key = nxt
        if not inits:
            break
    nops = sum(len(v) for v in g.edges.values())
    stats = {'walk': job['walk'], 'graph_states': len(g.edges),
             'graph_edges': g.nedges, 'graph_ops': nops,
             'ops_used': len(used), 'edges_hit': len(hit), 'steps': total}
    with open(job['stats'], 'w') as f:
        json.dump(stats, f)
    return traces
