"""Samples real choice emitters (spec/Freq.tla)."""
import itertools

from base import Trace, attempt

from fauxdoc.emitters import Choice, chance
from fauxdoc.mathtools import weighted_shuffle
import random


def guise(ws, op):
    """The weights as numbers of one kind or another, in proportion."""
    style, unit = op['style'], op['unit']
    if style == 'int':
        return [w * unit for w in ws]
    if style == 'float':
        return [w / unit for w in ws]
    if style == 'mixed':            # integers and fractions
        return [w / unit if w % unit else w // unit for w in ws]
    if style == 'tuple':
        return tuple(float(w) for w in ws)
    return [w * op['scale'] for w in ws]


def numbered(v):
    return v if type(v) is int and 0 <= v < 1000 else 999999


class FreqDriver:
    spec = 'Freq'

    def __init__(self, cfg):
        pass

    def make(self, op):
        """An emitter with the weights given in one way or another."""
        items, mode = op['vals'], op['mode']
        kw = {'rng_seed': op['seed']}
        ws = None if op['via'] in ('none', 'unset') else guise(op['w'], op)
        other = [1 + i * 7 % 5 for i in range(len(items))]
        if op['via'] == 'new':
            kw['weights'] = ws
        elif op['via'] == 'new_cum':
            kw['cum_weights'] = list(itertools.accumulate(ws))
        elif op['via'] in ('set', 'set_cum', 'unset'):
            kw['weights'] = other
        late = op.get('late')          # the mode is set later on
        want = {'rep': (True, False), 'norep': (False, False),
                'uniq': (True, True)}[mode]
        if not late:
            kw['replace'], kw['replace_only_after_call'] = want
        em = Choice(items, **kw)
        if op.get('used'):
            em()
            if not em.replace:
                em.reset()
        if op['via'] == 'set':
            em.weights = ws
        elif op['via'] == 'set_cum':
            em.cum_weights = list(itertools.accumulate(ws))
        elif op['via'] == 'unset':
            em.cum_weights = None
        if late:
            em.replace, em.replace_only_after_call = want
        return em

    def sample(self, op):
        how, num, k, mode = op['how'], op['num'], op['k'], op['mode']
        if mode == 'chance':
            em = chance(op['p'] / op['q'], rng_seed=op['seed'])
            vals = [em() for _ in range(num // 4)] + em(num - num // 4)
            return [[{True: 1, False: 2}.get(v, 3) for v in vals]]
        if how == 'shuffle':
            rng = random.Random(op['seed'])
            return [weighted_shuffle(op['vals'], guise(op['w'], op), rng, k)
                    for _ in range(num)]
        em = self.make(op)
        outs = []
        if mode == 'rep':
            if how == 'one':
                outs = [[em() for _ in range(num)]]
            elif how == 'many':
                outs = [em(num)]
            elif how == 'fresh':
                for i in range(num):
                    em.seed(f"{op['seed']}.{i}")
                    outs.append(em(k) if k > 1 else [em()])
            else:
                outs = [em(k) for _ in range(num // k)]
        elif mode == 'uniq':
            outs = [em(k) for _ in range(num)]
        else:
            for i in range(num):
                if how == 'seed':
                    em.seed(f"{op['seed']}.{i}")
                elif how == 'rng_seed':
                    em.rng_seed = f"{op['seed']}.{i}"
                    em.reset()
                elif how == 'weights':
                    em.weights = em.weights
                elif how == 'toggle':
                    em.replace = True
                    em.replace = False
                else:
                    em = self.make(dict(op, seed=f"{op['seed']}.{i}"))
                outs.append([em() for _ in range(k)] if i % 2 else em(k))
        return outs

    def apply(self, op):
        ev = {'mode': op['mode'], 'how': op['how'], 'via': op['via'],
              'w': op['w'], 'vals': op['vals'], 'k': op['k'], 'p': op['p'], 'q': op.get('q', 100),
              'pairs': op.get('pairs', False), 'depth': op.get('depth', 9),
              'outs': [], 'err': '',
              'group': op.get('group', [])}
        outs, ev['err'] = attempt(self.sample, op)
        if not ev['err']:
            ev['outs'] = [[numbered(v) for v in o] for o in outs]
        return ev


def freq(rng, i, tier):
    big = tier != 'quick'
    t = Trace(FreqDriver, {})
    num = 6000 if big else 1500
    mode = ['rep', 'norep', 'uniq', 'rep', 'norep', 'uniq', 'shuffle',
            'chance'][i % 8]
    seed = rng.randrange(10 ** 9)
    if mode == 'chance':
        p, q = rng.choice([-50, 0, 1, 5, 10, 25, 33, 50, 66, 75, 90, 99, 100,
                           250]), 100
        if i % 16 == 7:             # rarer, and not in whole percents
            p, q = rng.choice([(1, 250), (1, 300), (1, 256), (1, 1000),
                               (249, 250), (999, 1000), (1, 400), (3, 500)])
            num = 30000
        elif i % 48 == 15:
            p, q = rng.choice([(1, 3), (2, 7), (1, 8), (5, 9), (15, 16),
                               (-1, 1000), (1001, 1000)])
        t.do({'mode': mode, 'how': '', 'via': '', 'w': [], 'vals': [], 'k': 1,
              'p': p, 'q': q, 'seed': seed, 'num': num})
        return t
    how = ''
    if mode == 'shuffle':
        mode, how = 'norep', 'shuffle'
    n = rng.choice([2, 3, 3, 4]) if mode != 'uniq' else \
        rng.choice([2, 3, 4, 5, 6, 8, 12, 20])
    if mode == 'rep' and i % 16 == 0:
        n = rng.choice([8, 12, 25])
    wk = rng.randrange(4)
    ws = [1] * n if wk == 0 else [rng.randrange(1, 6) for _ in range(n)]
    if wk == 2 and n > 2:
        for j in rng.sample(range(n), rng.randrange(1, n - 1)):
            ws[j] = 0
    vals = list(range(1, n + 1))
    op = {'mode': mode, 'w': ws, 'vals': vals, 'p': 0, 'seed': seed,
          'num': num, 'k': n, 'late': rng.random() < 0.25,
          'used': rng.random() < 0.3,
          'style': rng.choice(['int', 'float', 'mixed', 'mixed', 'tuple',
                               'scaled']),
          'unit': rng.choice([1, 2, 3, 4, 5, 10]),
          'scale': rng.choice([1e-10, 1e-7, 1e-3, 1e6, 1e12, 0.1, 1 / 3])}
    vias = ['new', 'new_cum', 'set', 'set_cum', 'new']
    if len(set(ws)) == 1:
        op['w'] = [1] * n
        vias = ['none', 'none', 'unset', 'new', 'set']
    op['via'] = rng.choice(vias)
    if how:
        op.update(how=how, via='', k=rng.randrange(1, n + 1))
    elif mode == 'rep':
        op['how'] = rng.choice(['one', 'many', 'some', 'fresh'])
        op['k'] = rng.choice([1, 2, 3])
        op['pairs'] = n <= 3 and op['how'] != 'fresh'
        if rng.random() < 0.3:
            op['vals'] = [rng.randrange(1, n) for _ in range(n)]
    elif mode == 'uniq':
        op['how'] = 'calls'
        op['k'] = rng.randrange(2, n + 1)
        if n > 4:
            op['k'] = rng.choice([2, 3, n // 3, n // 2 + 1, n])
            op['depth'] = 2 if n < 9 else 1
    else:
        op['how'] = rng.choice(['seed', 'rng_seed', 'weights', 'toggle',
                                'new'])
    t.do(op)
    return t


def many(rng, i, tier):
    """Many items, in groups."""
    t = Trace(FreqDriver, {})
    n = rng.choice([30, 64, 99, 101, 120, 150, 200, 256, 300])
    style = rng.choice([0, 1, 1, 1, 2, 3])
    if style == 0:
        ws = [1] * n
    elif style == 1:                    # a few have most of the weight
        few = max(1, n * rng.choice([2, 5, 10, 20]) // 100)
        ratio = rng.choice([2, 5, 10, 30, 90, 101, 150, 300])
        low = rng.choice([1, 2, 3])
        ws = [low * ratio] * few + [low] * (n - few)
    elif style == 2:
        ws = [1 + 20 * j // n for j in range(n)]
    else:
        ws = [rng.choice([0, 1, 1, 2, 7]) for _ in range(n)]
        ws[0] = 1
    if rng.random() < 0.5:
        rng.shuffle(ws)
    how = rng.choice([0, 0, 1, 2]) if style == 1 else rng.randrange(3)
    if how == 0:                        # by weight
        group = [sorted(set(ws)).index(w) + 1 for w in ws]
    elif how == 1:                      # by place
        group = [1 + 4 * j // n for j in range(n)]
    else:
        group = [1 + j % 3 for j in range(n)]
    mode = ['uniq', 'rep', 'uniq', 'norep'][i % 4]
    k = rng.choice([1, 2, 3, 3, 5, n // 5, n // 3, n // 2, n])
    if mode != 'rep':
        k = min(k, sum(w > 0 for w in ws))
    if mode == 'uniq':
        k = max(k, 2)
    draws = 6000 if tier == 'quick' else 30000
    depth = min(k, rng.choice([2, 4, 4, 12, n]))
    if mode == 'rep':
        depth = draws
    num = max(4, draws // (depth if mode != 'rep' else 1))
    vias = ['new', 'new_cum', 'set', 'set_cum']
    if style == 0:
        vias += ['none', 'unset']
    op = {'mode': mode, 'w': ws, 'vals': list(range(1, n + 1)), 'p': 0,
          'seed': rng.randrange(10 ** 9), 'num': num, 'k': k,
          'late': rng.random() < 0.25, 'used': rng.random() < 0.3,
          'style': rng.choice(['int', 'float', 'tuple', 'scaled']),
          'unit': rng.choice([1, 2, 10]),
          'scale': rng.choice([1e-10, 1e-3, 1e6, 0.1]),
          'via': rng.choice(vias), 'group': group, 'depth': depth,
          'how': {'uniq': 'calls', 'rep': rng.choice(['one', 'many', 'some']),
                  'norep': rng.choice(['seed', 'weights', 'toggle'])}[mode]}
    if mode != 'rep' and rng.random() < 0.2:
        op.update(mode='norep', how='shuffle', via='')
    t.do(op)
    return t


def uniq(rng, i, tier):
    """Only emitters that replace after calls."""
    return freq(rng, 8 * i + 2, tier)


SUITES = {'freq': freq, 'freq_many': many, 'freq_uniq': uniq}
