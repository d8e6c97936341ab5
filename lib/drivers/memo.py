"""Drives seeded emitters (spec/Memo.tla) and streams (spec/Stream.tla)."""
import hashlib
import itertools
import json
import os
import random

import trees
from base import (Trace, attempt, call_emitter, dec, enc, pick_how,
                  scribble)

from fauxdoc.emitters import Choice, Iterative
from fauxdoc.mathtools import weighted_shuffle


class Shuffler:
    """weighted_shuffle with a generator of its own."""

    def __init__(self, items, weights, seed):
        self.items, self.weights, self.rng_seed = items, weights, seed
        self.reset()

    def reset(self):
        self.rng = random.Random(self.rng_seed)

    def seed(self, seed):
        self.rng_seed = seed
        self.rng.seed(seed)

    def __call__(self, n=None):
        return weighted_shuffle(self.items, self.weights, self.rng, n)


def cut(text):
    """A short string for an output."""
    text = ''.join(c if 31 < ord(c) < 127 else f'\\u{ord(c):x}' for c in text)
    if len(text) < 60:
        return text
    return text[:30] + '..' + hashlib.sha256(text.encode()).hexdigest()[:12]


def mode_of(settings):
    if settings is None:
        return ''
    return 'uniq' if settings['roac'] else \
        'rep' if settings['repl'] else 'norep'


def gen_of(seed):
    """Names the state that a generator with this seed starts with."""
    if seed is None:
        return 'none'
    state = repr(random.Random(seed).getstate())
    return hashlib.sha256(state.encode()).hexdigest()[:12]


class Fork:
    """A copy of this process, which applies operations."""

    def __init__(self, driver):
        down, up = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(down[1])
            os.close(up[0])
            try:
                with os.fdopen(down[0]) as ops, os.fdopen(up[1], 'w') as evs:
                    for line in ops:
                        evs.write(json.dumps(driver.apply(json.loads(line))))
                        evs.write('\n')
                        evs.flush()
            finally:
                os._exit(0)
        os.close(down[0])
        os.close(up[1])
        self.ops, self.evs = os.fdopen(down[1], 'w'), os.fdopen(up[0])

    def apply(self, op):
        self.ops.write(json.dumps(op) + '\n')
        self.ops.flush()
        line = self.evs.readline()
        if not line:
            raise RuntimeError('the forked process has come to an end')
        return json.loads(line)

    def end(self):
        self.ops.close()
        self.evs.close()
        os.waitpid(self.pid, 0)


class MemoDriver:
    spec = 'Memo'

    def __init__(self, cfg):
        self.inst = []
        self.child = None

    def apply(self, op):
        kind = op['op']
        if self.child and kind != 'join':
            return self.child.apply(op)
        ev = {'op': kind, 'i': op.get('i', 0), 'recipe': '', 'set': '',
              'seed': 'none', 'pure': False, 'tok': '', 'out': '', 'err': '',
              'kind': '', 'mode': '', 'g': True, 'wide': False,
              'gen': 'none'}
        seed = None
        if op.get('seed') == 'omit':
            seed = trees.OMIT
        elif 'seed' in op:
            seed = dec(op['seed'])
            ev['gen'] = gen_of(seed)
            ev['seed'] = 'none' if seed is None else op['seed']
        if kind == 'fork':
            self.child = Fork(self)
            return ev
        if kind == 'join':
            self.child.end()
            self.child = None
            return ev
        if kind == 'global':
            random.seed(op['n'])
            random.random()
            return ev
        before = random.getstate()
        if kind == 'foreign':
            attempt(lambda: Choice('abc', rng_seed=op['n'])(op['n'] % 5))
            attempt(lambda: Choice('abc', [1, 2, 3], replace=False)(2))
            ev['err'] = ''
        elif kind == 'proc':
            self.inst = []
        elif kind == 'new':
            r = op['recipe']
            ev['recipe'] = hashlib.sha256(
                json.dumps(r, sort_keys=True).encode()).hexdigest()[:10]
            ev['pure'] = op['pure']
            ev['set'] = op.get('set', '')
            ev['mode'] = mode_of(op.get('settings'))
            if r['k'] == 'wshuffle':
                em, ev['err'] = attempt(
                    Shuffler, r['items'], r['w'],
                    None if seed is trees.OMIT else seed)
            elif r['k'] == 'bare':
                s = op['settings']
                em, ev['err'] = attempt(
                    Choice, r['items'], s['w'], s['repl'], s['roac'],
                    rng_seed=seed)
            else:
                em, ev['err'] = attempt(trees.build, r, seed)
            self.inst.append((em, r))
        else:
            em, r = self.inst[op['i'] - 1]
            sch = r['k'] == 'schema'
            ev['kind'] = r['k']
            if kind == 'call':
                ev['tok'] = f"{op['how']}:{op['n']}"
                if op['how'] in ('one', 'emit'):
                    ev['tok'] = 'one'
                    call = em if op['how'] == 'one' else em.emit
                    out, ev['err'] = attempt(call)
                elif op['how'] == 'many':
                    ev['tok'] = f"many:{op['n']}"
                    out, ev['err'] = attempt(em, op['n'])
                ev['out'] = ev['err'] or cut(repr(out))
                n = op['n'] if op['how'] == 'many' else 1
                ev['wide'] = not ev['err'] and n >= r.get('wide', n + 1)
                ev['err'] = ''
            elif kind == 'reset':
                _, ev['err'] = attempt(em.reset_fields if sch else em.reset)
            elif kind == 'seed':
                _, ev['err'] = attempt(em.seed_fields if sch else em.seed,
                                       seed)
            elif kind == 'set_rng_seed':
                _, ev['err'] = attempt(setattr, em, 'rng_seed', seed)
            elif kind == 'set':
                ev['tok'] = json.dumps([op['attr'], op['val']])
                ev['set'] = op['set']
                ev['mode'] = mode_of(json.loads(op['set']))
                _, ev['err'] = attempt(setattr, em, op['attr'], op['val'])
        ev['g'] = random.getstate() == before
        return ev


SEEDS = ['int:0', 'int:1', 'int:7', 'int:-5', 'a', "str:''", 'float:2.5',
         'float:0.0', "bytes:b'xy'", 'int:123456789012345678901']


def rand_seed(rng, none=0.06):
    if rng.random() < none:
        return 'NoneType:None'
    if rng.random() < 0.5:
        return rng.choice(SEEDS)
    return f'int:{rng.randrange(10 ** 6)}'


def modes(r, rng):
    """Gives choices in a recipe other modes, here and there."""
    if 'wrap' in json.dumps(r):
        # Creating a wrapper takes a value, so this might not work.
        return r
    if isinstance(r, dict):
        if r.get('k') in ('choice', 'poisson', 'gaussian') and \
                rng.random() < 0.3:
            r['mode'] = rng.choice(['uniq', 'norep', 'rep'])
        for v in r.values():
            modes(v, rng)
    elif isinstance(r, list):
        for v in r:
            modes(v, rng)
    return r


def rand_recipe(rng, i):
    k = i % 12
    if k < 3:
        items = [rng.choice(trees.LETTERS)
                 for _ in range(rng.choice([2, 3, 5, 8, 13, 30]))]
        return trees.r_choice(rng, items), True
    if k == 3:
        return {'k': 'chance', 'p': rng.choice([0.1, 0.5, 0.77])}, True
    if k == 4:
        r = trees.r_ints(rng, [rng.choice(['poisson', 'gaussian'])], hi=99)
        r['mode'] = rng.choice(['rep', 'uniq', 'norep'])
        return r, True
    if k == 5:
        n = rng.choice([2, 5, 12, 30])
        return {'k': 'wshuffle', 'items': trees.LETTERS[:2] * n,
                'w': trees.weights(rng, 2 * n)}, True
    pure = rng.random() < 0.75
    kinds = ['choice', 'static', 'poisson', 'gaussian', 'word'] + \
        ([] if pure else ['seq', 'iter'])
    if k < 9:
        r = trees.r_any(rng, kinds, 2)
        while r['k'] in ('static', 'seq', 'iter', 'choice'):
            r = trees.r_any(rng, kinds, 2)
    elif k < 10:
        r = trees.r_field(rng, kinds, 'f', 2)
    else:
        r = trees.r_schema(rng, kinds)
    return modes(r, rng), pure


class Maker:
    """Ways to get an instance to its start, and plans of calls."""

    def __init__(self, rng, t, recipe, pure, settings=None):
        self.rng, self.t = rng, t
        self.recipe, self.pure, self.settings = recipe, pure, settings
        self.docs = recipe['k'] in ('field', 'schema')
        self.n = 0

    def call(self):
        rng = self.rng
        how = pick_how(rng)
        if how == 'emit_many':
            how = 'many'
        if self.docs or self.recipe['k'] == 'wshuffle' and how == 'emit':
            how = 'one'
        if how in ('one', 'emit'):
            return {'op': 'call', 'how': how, 'n': 1}
        return {'op': 'call', 'how': 'many',
                'n': rng.choice([0, 1, 2, 2, 3, 4, 6, 11])}

    def plan(self):
        return [self.call() for _ in range(self.rng.randrange(1, 6))]

    def new(self, seed):
        op = {'op': 'new', 'recipe': self.recipe, 'pure': self.pure,
              'seed': seed}
        if self.settings is not None:
            op['settings'] = self.settings
            op['set'] = json.dumps(self.settings, sort_keys=True)
        self.t.do(op)
        self.n += 1
        return self.n

    def at_start(self, seed):
        """An instance that has just been started with a seed."""
        rng, t = self.rng, self.t
        k = rng.randrange(5)
        schema = self.recipe['k'] == 'schema'
        if k == 0:
            return self.new(seed)
        other = rand_seed(rng)
        if k == 1:
            i = self.new(seed)
        else:
            i = self.new(other)
        for op in self.plan()[:rng.randrange(0, 3)]:
            t.do(dict(op, i=i))
        if k == 2 and not schema:
            t.do({'op': 'set_rng_seed', 'i': i, 'seed': seed})
            if rng.random() < 0.5:
                t.do(dict(self.call(), i=i))
        elif k >= 2:
            t.do({'op': 'seed', 'i': i, 'seed': seed})
            if self.pure and k == 3:
                return i
        t.do({'op': 'reset', 'i': i})
        return i

    def noise(self):
        if self.rng.random() < 0.25:
            self.t.do({'op': self.rng.choice(['global', 'foreign']),
                       'n': self.rng.randrange(100)})


def interleave(rng, t, m, runs):
    """runs: lists of (instance, operations), in turns at random."""
    runs = [[i, list(ops)] for i, ops in runs]
    while any(ops for _, ops in runs):
        run = rng.choice([r for r in runs if r[1]])
        t.do(dict(run[1].pop(0), i=run[0]))
        m.noise()


def memo(rng, i, tier):
    t = Trace(MemoDriver, {})
    recipe, pure = rand_recipe(rng, i)
    m = Maker(rng, t, recipe, pure)
    seeds = [rand_seed(rng, 0), rand_seed(rng)]
    plan = m.plan()
    for _ in range(rng.randrange(1, 3)):
        runs = []
        for _ in range(rng.randrange(2, 4)):
            s = seeds[0] if rng.random() < 0.8 else seeds[1]
            runs.append((m.at_start(s), plan))
        interleave(rng, t, m, runs)
        if rng.random() < 0.5:
            k = runs[0][0]
            t.do({'op': 'reset', 'i': k})
            for op in plan:
                t.do(dict(op, i=k))
    return t


def settings(rng, i, tier):
    """Choices whose settings change on the way."""
    t = Trace(MemoDriver, {})
    n = rng.choice([2, 3, 5, 12])
    items = trees.LETTERS[:n]

    def rand_settings():
        w = rng.choice([None, [rng.randrange(1, 5) for _ in range(n)]])
        mode = rng.choice(['rep', 'norep', 'uniq'])
        return {'w': w, 'repl': mode != 'norep', 'roac': mode == 'uniq'}
    goal = rand_settings()
    seed = rand_seed(rng, 0)
    m = Maker(rng, t, {'k': 'bare', 'items': items}, True, goal)
    plan = m.plan()
    cur = {}

    def change(k, attr, val):
        c = cur[k] = dict(cur[k])
        if attr == 'weights':
            c['w'] = val
        elif attr == 'replace':
            c['repl'] = val
            c['roac'] = c['roac'] and val
        else:
            c['roac'] = val
            c['repl'] = c['repl'] or val
        t.do({'op': 'set', 'i': k, 'attr': attr, 'val': val,
              'set': json.dumps(c, sort_keys=True)})

    ready = []
    for _ in range(rng.randrange(2, 4)):
        m.settings = goal if rng.random() < 0.4 else rand_settings()
        k = m.new(rand_seed(rng, 0) if rng.random() < 0.5 else seed)
        cur[k] = m.settings
        for op in m.plan()[:2]:
            t.do(dict(op, i=k))
        for _ in range(rng.randrange(0, 3)):
            attr = rng.choice(['weights', 'replace',
                               'replace_only_after_call'])
            change(k, attr, rand_settings()['w'] if attr == 'weights'
                   else rng.random() < 0.5)
        if cur[k]['w'] != goal['w']:
            change(k, 'weights', goal['w'])
        if cur[k]['repl'] != goal['repl']:
            change(k, 'replace', goal['repl'])
        if cur[k]['roac'] != goal['roac']:
            change(k, 'replace_only_after_call', goal['roac'])
        if rng.random() < 0.5:
            t.do({'op': 'seed', 'i': k, 'seed': seed})
        else:
            t.do({'op': 'set_rng_seed', 'i': k, 'seed': seed})
            t.do({'op': 'reset', 'i': k})
        ready.append((k, plan))
    interleave(rng, t, m, ready)
    return t


def rejected(rng, i, tier):
    """Requests for too many unique items, between others."""
    t = Trace(MemoDriver, {})
    n = rng.choice([1, 2, 3, 5, 12, 30])
    goal = {'w': rng.choice([None, [rng.randrange(0, 5) for _ in range(n - 1)]
                             + [1]]), 'repl': True, 'roac': True}
    m = Maker(rng, t, {'k': 'bare', 'items': (trees.LETTERS * 3)[:n]}, True,
              goal)
    seeds = [rand_seed(rng, 0), rand_seed(rng, 0)]
    plan = [op for op in m.plan() + m.plan() if op['n'] <= n]
    runs = []
    for _ in range(rng.randrange(2, 5)):
        mine = list(plan)
        for _ in range(rng.randrange(0, 4)):
            mine.insert(rng.randrange(len(mine) + 1), {
                'op': 'call', 'how': 'many',
                'n': n + rng.choice([1, 1, 2, 7, 100])})
        runs.append((m.at_start(seeds[rng.random() < 0.2]), mine))
    interleave(rng, t, m, runs)
    return t


def procs(rng, i, tier):
    """One half of a trace over two processes."""
    if i % 4 == 0:
        return memo_wide(rng, i // 4, tier)
    t = Trace(MemoDriver, {})
    recipe, pure = rand_recipe(rng, i)
    m = Maker(rng, t, recipe, pure)
    seed = rand_seed(rng, 0)
    k = m.new(seed)
    for op in m.plan():
        t.do(dict(op, i=k))
    return t


def word(n):
    return {'k': 'word', 'length': {'k': 'static', 'v': f'int:{n}'},
            'alphabet': {'k': 'choice', 'items': trees.LETTERS,
                         'mode': 'rep'}}


def wide_recipe(rng, i):
    """Something that gives far too much for the same to come up again.

    wide: from this number of values on.
    """
    k = i % 13
    if k == 0:
        return {'k': 'choice', 'n': 10 ** 5, 'mode': 'rep', 'wide': 8,
                'as_str': rng.random() < 0.3}
    if k == 1:
        return {'k': 'choice', 'n': 2000, 'mode': rng.choice(
            ['norep', 'uniq']), 'wide': 20}
    if k == 2:
        r = {'k': 'choice', 'items': trees.LETTERS, 'mode': 'rep',
             'wide': 50}
        w = [rng.randrange(1, 9) for _ in trees.LETTERS]
        if rng.random() < 0.5:
            r['w'] = w
        else:
            r['cw'] = list(itertools.accumulate(w))
        return r
    if k == 3:
        return {'k': 'choice', 'n': 500, 'wide': 25,
                'mode': rng.choice(['norep', 'uniq']),
                'w': [rng.randrange(1, 9) for _ in range(500)]}
    if k == 4:
        return {'k': 'chance', 'p': rng.choice([0.3, 0.5, 0.77]),
                'wide': 200}
    if k == 5:
        return {'k': 'poisson', 'items': [f'int:{x}' for x in range(40)],
                'mu': 15, 'floor': 0, 'mode': 'rep', 'wide': 60}
    if k == 6:
        return {'k': 'gaussian', 'items': [f'int:{x}' for x in range(40)],
                'mu': 15, 'sigma': 6, 'floor': 0, 'mode': 'rep', 'wide': 60}
    if k == 7:
        return dict(word(40), wide=1)
    if k == 8:
        r = {'k': 'text', 'num': {'k': 'static', 'v': 'int:9'},
             'word': word(7), 'wide': 1}
        if rng.random() < 0.5:
            r['sep'] = {'k': 'static', 'v': ' '}
        return r
    if k == 9:
        if rng.random() < 0.35:
            return {'k': 'basedout', 'fn': 'wide', 'wide': 1, 'field': {
                'k': 'field', 'name': 'f', 'em': {'k': 'static', 'v': 'v'}}}
        if rng.random() < 0.5:
            return {'k': 'wrap1', 'src': {'k': 'static', 'v': 'v'},
                    'fn': 'wide', 'wide': 1}
        return {'k': 'wrapn', 'srcs': {
            'a': {'k': 'static', 'v': 'v'},
            'b': {'k': 'static', 'v': 'w'}}, 'fn': 'wide', 'wide': 1}
    if k == 10:
        r = {'k': 'field', 'name': 'f', 'em': word(40), 'wide': 1}
        if rng.random() < 0.5:
            r['rep'] = {'k': 'static', 'v': 'int:3'}
        elif rng.random() < 0.5:
            r['rep'] = {'k': 'choice', 'items': ['int:1', 'int:4'],
                        'mode': 'rep'}
        return r
    if k == 11:
        em = word(40) if rng.random() < 0.5 else {'k': 'static', 'v': 'v'}
        return {'k': 'schema', 'wide': 1, 'fields': [
            {'k': 'field', 'name': 'f0', 'em': em},
            {'k': 'field', 'name': 'x', 'em': {
                'k': 'based', 'of': [0], 'fn': 'wide'}}]}
    return {'k': 'wshuffle', 'items': trees.LETTERS * 3,
            'w': [rng.randrange(1, 9) for _ in range(48)], 'wide': 1}


# Seeds that are easily mistaken for each other.
ALIKE = [['int:0', "str:''", 'float:0.0', 'int:1'],
         ['int:1', 'int:4294967297', 'int:65537', 'int:257', 'int:-1'],
         ['float:2.5', 'int:2', 'float:2.0', 'int:3', "str:'2.5'"],
         ['a', "str:'A'", "bytes:b'a'", "str:'a '", 'int:97'],
         ['int:123456789012345678901', 'int:123456789012345678902',
          'int:12345678901234567890'],
         [f"str:'{'x' * 40}a'", f"str:'{'x' * 40}b'"]]


def wide_seeds(rng):
    return rng.choice([['omit', 'NoneType:None'], ['omit'],
                       rng.choice(ALIKE), rng.choice(ALIKE),
                       ['omit', 'int:0', "str:''"],
                       [rand_seed(rng, 0.3) for _ in range(3)]])


def wide_call(rng, r):
    n = r['wide'] + rng.choice([0, 0, 0, 1, 5])
    if r['k'] in ('field', 'schema', 'wshuffle') or \
            n == 1 and rng.random() < 0.5:
        how = 'one' if r['k'] in ('field', 'schema', 'wshuffle') \
            else rng.choice(['one', 'emit'])
        return {'op': 'call', 'how': how, 'n': 1}
    return {'op': 'call', 'how': 'many', 'n': n}


def memo_wide(rng, i, tier):
    """Starts with and without seeds, which must not be alike."""
    t = Trace(MemoDriver, {})
    r = wide_recipe(rng, i)
    seeds = wide_seeds(rng)
    m = Maker(rng, t, r, True)
    call = wide_call(rng, r)

    def some_seed(new=False):
        seed = rng.choice(seeds)
        return 'NoneType:None' if seed == 'omit' and not new else seed
    for _ in range(rng.randrange(2, 5)):
        k = m.new(some_seed(True))
        t.do(dict(call, i=k))
        if rng.random() < 0.3:
            t.do(dict(wide_call(rng, r), i=k))
        m.noise()

    def step():
        k = rng.randrange(1, m.n + 1)
        how = rng.choice(['reset', 'reset', 'seed', 'set_rng_seed', 'call'])
        if how == 'reset' or how == 'set_rng_seed' and r['k'] == 'schema':
            t.do({'op': 'reset', 'i': k})
        elif how != 'call':
            t.do({'op': how, 'i': k, 'seed': some_seed()})
            if how == 'set_rng_seed':
                t.do({'op': 'reset', 'i': k})
        t.do(dict(call, i=k))
        m.noise()

    for _ in range(rng.randrange(2, 8)):
        step()
    if rng.random() < 0.4:
        # The same in a copy of the process, and then here.
        n = m.n
        t.do({'op': 'fork'})
        for there in (True, False):
            for _ in range(rng.randrange(1, 4)):
                if rng.random() < 0.3:
                    k = m.new(some_seed(True))
                    t.do(dict(call, i=k))
                else:
                    step()
            if there:
                t.do({'op': 'join'})
                m.n = n
    return t


def sequences(ops, length):
    return itertools.product(ops, repeat=length)


def memo_all(rng, i, tier):
    """Every short history of an instance, one after the other."""
    t = Trace(MemoDriver, {})
    bare = i % 3 == 0
    if bare:
        n = rng.choice([2, 3, 5])
        recipe, pure = {'k': 'bare', 'items': trees.LETTERS[:n]}, True
        sets = [{'w': w, 'repl': r, 'roac': a} for w in
                (None, [rng.randrange(1, 5) for _ in range(n)])
                for r, a in ((True, False), (False, False), (True, True))]
    else:
        recipe, pure = rand_recipe(rng, i // 3 * 2 + i % 3 - 1)
    m = Maker(rng, t, recipe, pure)
    many = rng.choice([2, 3])
    s1, s2 = rand_seed(rng, 0), rand_seed(rng, 0)
    call = {'op': 'call', 'how': 'one', 'n': 1}
    ops = [call, {'op': 'call', 'how': 'many', 'n': many}, {'op': 'reset'},
           {'op': 'seed', 'seed': s1}, {'op': 'seed', 'seed': s2}]
    if recipe['k'] != 'schema':
        ops += [{'op': 'set_rng_seed', 'seed': s1},
                {'op': 'set_rng_seed', 'seed': s2}]
    if bare:
        ops += [('weights', sets[3]['w']), ('weights', None),
                ('replace', True), ('replace', False),
                ('replace_only_after_call', True),
                ('replace_only_after_call', False)]
    deep = 3 if tier == 'quick' or bare else 4
    every = 4 if bare and tier == 'quick' else 1
    for x, seq in enumerate(sequences(ops, deep)):
        if (x + i) % every:
            continue
        if m.n == 12:
            t.do({'op': 'proc'})
            m.n = 0
        if bare:
            m.settings = cur = rng.choice(sets)
        k = m.new(s1)
        for op in seq + (call,):
            if isinstance(op, tuple):
                attr, val = op
                cur = dict(cur)
                if attr == 'weights':
                    cur['w'] = val
                elif attr == 'replace':
                    cur['repl'] = val
                    cur['roac'] = cur['roac'] and val
                else:
                    cur['roac'] = val
                    cur['repl'] = cur['repl'] or val
                op = {'op': 'set', 'attr': attr, 'val': val,
                      'set': json.dumps(cur, sort_keys=True)}
            t.do(dict(op, i=k))
    return t


# ---------------------------------------------------------------- streams

class StreamDriver:
    spec = 'Stream'

    def __init__(self, cfg):
        self.cfg, self.inst = cfg, []
        self.speccfg = {'cap': cfg['cap']}

    def apply(self, op):
        ev = {'op': op['op'], 'i': op.get('i', 0), 'how': op.get('how', ''),
              'n': op.get('n', 0), 'out': [], 'shape': '', 'err': ''}
        if op['op'] == 'new':
            em, ev['err'] = attempt(trees.build, self.cfg['recipe'],
                                    self.cfg['seed'])
            self.inst.append(em)
        elif op['op'] == 'reset':
            _, ev['err'] = attempt(self.inst[op['i'] - 1].reset)
        else:
            ev['shape'], vals, ev['err'], raw = call_emitter(
                self.inst[op['i'] - 1], op['how'], op['n'])
            ev['out'] = [cut(enc(v)) for v in vals]
            if op.get('scribble') and ev['shape'] == 'list':
                scribble(raw)
        return ev


def stream_recipe(rng, i):
    kinds = ['static', 'seq', 'iter', 'seq', 'iter', 'norep', 'word']
    k = i % 10
    if k == 0:
        r = {'k': 'iter', 'inf': rng.randrange(1, 9)}
        if rng.random() < 0.5:
            r = {'k': 'wrap1', 'src': r, 'fn': 'str'}
        return r, -1
    if k < 3:
        n = rng.choice([1, 2, 3, 5, 9, 20, 40])
        r = {'k': 'choice', 'n': n, 'mode': 'norep'}
        if rng.random() < 0.5:
            r['w'] = trees.weights(rng, n)
        r['as_str'] = rng.random() < 0.5
        if rng.random() < 0.3:
            r = {'k': 'wrap1', 'src': r, 'fn': 'tag'}
            return r, 'src'
        return r, n
    if k < 5:
        return trees.r_word(rng, kinds), -1
    if k < 7:
        return trees.r_text(rng, kinds), -1
    return trees.r_any(rng, kinds, 3, rngfn=False), -1


def stream(rng, i, tier):
    recipe, cap = stream_recipe(rng, i)
    inner = cap == 'src'
    if inner:
        cap = recipe['src']['n']
    t = Trace(StreamDriver, {'recipe': recipe, 'cap': cap,
                             'seed': rng.randrange(10 ** 6)})
    total = min(24, cap) if cap >= 0 else rng.randrange(6, 24)
    for k in range(1, rng.randrange(2, 5) + 1):
        t.do({'op': 'new'})
        for again in range(rng.choice([1, 1, 2])):
            if again:
                t.do({'op': 'reset', 'i': k})
            done = 0
            while done < total:
                how = pick_how(rng)
                n = rng.choice([0, 1, 2, 3, 4, 5, total]) \
                    if how in ('many', 'emit_many') else 1
                n = min(n, total - done)
                if cap >= 0 and not inner and rng.random() < 0.1:
                    # Too many: this uses up nothing.
                    ev = t.do({'op': 'call', 'i': k, 'how': 'many',
                               'n': cap - done + rng.randrange(1, 4)})
                    if ev['err'] != 'ValueError':
                        return t
                ev = t.do({'op': 'call', 'i': k, 'how': how, 'n': n,
                           'scribble': rng.random() < 0.2})
                if ev['err'] or len(ev['out']) != n:
                    return t
                done += n
    return t


def stream_all(rng, i, tier):
    """Every short sequence of batches."""
    recipe, cap = stream_recipe(rng, i)
    if cap == 'src':
        cap = recipe['src']['n']
        recipe['src']['n'] = cap = max(cap, 13)
        if 'w' in recipe['src']:
            recipe['src']['w'] = trees.weights(rng, cap)
        inner = True
    else:
        inner = False
    t = Trace(StreamDriver, {'recipe': recipe, 'cap': cap,
                             'seed': rng.randrange(10 ** 6)})
    ops = [('one', 1), ('many', 0), ('many', 1), ('many', 2), ('many', 3),
           ('reset', 0)]
    k = 0
    for seq in sequences(ops, 3 if tier == 'quick' else 4):
        t.do({'op': 'new'})
        k += 1
        for how, n in seq:
            if how == 'reset':
                t.do({'op': 'reset', 'i': k})
                continue
            ev = t.do({'op': 'call', 'i': k, 'how': how, 'n': n,
                       'scribble': rng.random() < 0.2})
            if ev['err'] and (cap < 0 or inner):
                return t
    return t


SUITES = {'memo_all': memo_all, 'stream_all': stream_all, 'memo': memo,
          'memo_settings': settings, 'memo_procs': procs,
          'memo_rejected': rejected, 'memo_wide': memo_wide,
          'stream': stream}
