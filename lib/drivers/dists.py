"""Drives real Poisson and Gaussian choices (spec/Dist.tla)."""
import math

from base import Trace, attempt, call_emitter, enc, geti, pick_how

from fauxdoc import mathtools
from fauxdoc.emitters import Choice, gaussian_choice, poisson_choice

MILLION = 1000000
TINY = -2000000000
MANY = 262


def ln_of(v):
    """The logarithm of a number, in millionths."""
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return 1999999999
    if v == 0:
        return TINY
    if not v > 0 or v == math.inf:
        return 1999999999
    return max(TINY, min(1999999999, round(math.log(v) * MILLION)))


LNFACT = [round(math.lgamma(k + 1) * MILLION) for k in range(1, MANY)]


class DistDriver:
    spec = 'Dist'

    def __init__(self, cfg):
        self.em = self.ref = None
        self.speccfg = {'lnfact': LNFACT}

    def look(self, em, items):
        if em is None:
            return []

        def see():
            return [type(em).__name__, enc(em.replace),
                    enc(em.replace_only_after_call), enc(em.noun),
                    enc(em.rng_seed), enc(em.num_unique_items),
                    enc(em.num_unique_values), enc(em.emits_unique_values),
                    enc(len(em.items)), enc(list(em.items) == list(items)),
                    enc(em.cum_weights)]
        res, err = attempt(see)
        return res if not err else ['error', err]

    def apply(self, op):
        kind = op['op']
        ev = {'op': kind, 'dist': op.get('dist', ''), 'n': op.get('n', 0),
              'mu': op.get('mu', 10), 'sigma': op.get('sigma', 10),
              'lnmu': 0, 'lnsigma': 0, 'lnfloor': TINY, 'ws': [], 'err': '',
              'err2': '', 'out': [], 'out2': [], 'look': [], 'look2': [],
              'lo': op.get('lo', []), 'hi': op.get('hi', []), 'res': 0}
        if op.get('dist'):
            if ev['mu'] > 0:
                ev['lnmu'] = round(math.log(ev['mu'] / 10) * MILLION)
            ev['lnsigma'] = round(math.log(ev['sigma'] / 10) * MILLION)
        if kind == 'new':
            self.new(op, ev)
        elif kind == 'fn':
            mu = self.number(ev['mu'], op)
            if op['dist'] == 'poisson':
                v, ev['err'] = attempt(mathtools.poisson, op['n'], mu)
            else:
                v, ev['err'] = attempt(mathtools.gaussian, op['n'], mu,
                                       self.number(ev['sigma'], op))
            ev['ws'] = [{'ln': ln_of(v), 'floor': False}]
        elif kind == 'clamp':
            lo, hi = op['lo'], op['hi']
            kw = {}
            if lo or op.get('explicit'):
                kw['mn'] = lo[0] if lo else None
            if hi or op.get('explicit'):
                kw['mx'] = hi[0] if hi else None
            v, ev['err'] = attempt(mathtools.clamp, op['n'], **kw)
            ev['res'] = geti(v)
        else:
            for em, out, err in ((self.em, 'out', 'err'),
                                 (self.ref, 'out2', 'err2')):
                if kind == 'call':
                    shape, vals, ev[err], _ = call_emitter(em, op['how'],
                                                           op['n'])
                    ev[out] = [shape] + [enc(v) for v in vals]
                elif kind == 'reset':
                    _, ev[err] = attempt(em.reset)
                elif kind == 'seed':
                    _, ev[err] = attempt(em.seed, op['seed'])
                elif kind == 'set':
                    _, ev[err] = attempt(setattr, em, op['name'], op['b'])
            ev['look'] = self.look(self.em, self.items)
            ev['look2'] = self.look(self.ref, self.items)
        return ev

    def number(self, tenths, op):
        if tenths % 10 == 0 and not op.get('float'):
            return tenths // 10
        return tenths / 10

    def new(self, op, ev):
        n = op['n']
        base = op.get('base', 0)
        self.items = {'range': range(base, base + n),
                      'tuple': tuple(f'v{i}' for i in range(n)),
                      'str': ''.join(chr(200 + i) for i in range(n)),
                      'same': ['a', 'b'] * (n // 2) + ['c'] * (n % 2),
                      }.get(op.get('ckind'), list(range(base, base + n)))
        kw = dict(op['kw'])
        kw2 = {k: v for k, v in kw.items()}
        if op['floor']:
            kw['weight_floor'] = op['floor']
            ev['lnfloor'] = ln_of(op['floor'])
        if op['dist'] == 'poisson':
            if op['mu'] != 10 or op.get('explicit'):
                kw['mu'] = self.number(op['mu'], op)
            em, ev['err'] = attempt(poisson_choice, self.items, **kw)
        else:
            if op['mu'] != 0 or op.get('explicit'):
                kw['mu'] = self.number(op['mu'], op)
            if op['sigma'] != 10 or op.get('explicit'):
                kw['sigma'] = self.number(op['sigma'], op)
            em, ev['err'] = attempt(gaussian_choice, self.items, **kw)
        self.em = em
        if ev['err']:
            # Whether it should have worked.
            _, ev['err2'] = attempt(Choice, self.items, [1] * n, **kw2)
            return
        ws, err = attempt(lambda: list(em.weights))
        if err:
            ws = []
        ev['ws'] = [{'ln': ln_of(w), 'floor': w == op['floor']} for w in ws]
        self.ref, ev['err2'] = attempt(Choice, self.items, ws, **kw2)
        ev['look'] = self.look(self.em, self.items)
        ev['look2'] = self.look(self.ref, self.items)


# ---------------------------------------------------------------- scripts

def rand_new(rng):
    dist = rng.choice(['poisson', 'gaussian'])
    n = rng.choice([1, 2, 3, 4, 5, 7, 10, 20, 50, 100, 169, 170, 171, 172,
                    200, 260])
    op = {'op': 'new', 'dist': dist, 'n': n, 'base': rng.randrange(-3, 4),
          'ckind': rng.choice(['list', 'range', 'tuple', 'str', 'same']),
          'floor': rng.choice([0, 0, 0.001, 0.05, 0.3, 1e-12, 2]),
          'float': rng.random() < 0.5, 'explicit': rng.random() < 0.5}
    if dist == 'poisson':
        op['mu'] = rng.choice([1, 5, 10, 10, 15, 20, 30, 47, 100, 250, 1000,
                               2000, 5000, 6990, 7100, 7200, 7440, 7500, 8000,
                               9990, rng.randrange(1, 3000)])
    else:
        op['mu'] = rng.choice([0, 0, -10, 5, 10, 15, 20, 30, 100, 105, 1700,
                               rng.randrange(-100, 3000)])
        op['sigma'] = rng.choice([10, 10, 5, 3, 15, 20, 25, 100, 1, 400, 990,
                                  rng.randrange(1, 300)])
    kw = {}
    if rng.random() < 0.5:
        kw['replace'] = rng.random() < 0.6
    if rng.random() < 0.4:
        kw['replace_only_after_call'] = rng.random() < 0.6
    if rng.random() < 0.4:
        kw['noun'] = rng.choice(['', 'thing', 'choices'])
    kw['rng_seed'] = rng.choice([0, 1, 7, 'seed', 12345])
    op['kw'] = kw
    return op


def dist(rng, i, tier):
    t = Trace(DistDriver, {})
    new = rand_new(rng)
    t.do(new)
    if not t.driver.em or not t.driver.ref:
        return t
    n = new['n']
    for _ in range(rng.randrange(2, 9)):
        k = rng.random()
        if k < 0.65:
            op = {'op': 'call', 'how': pick_how(rng),
                  'n': rng.choice([0, 1, 2, 3, n // 2, n, n + 1])}
        elif k < 0.75:
            op = {'op': 'reset'}
        elif k < 0.85:
            op = {'op': 'seed', 'seed': rng.randrange(5)}
        else:
            op = {'op': 'set', 'b': rng.random() < 0.5,
                  'name': rng.choice(['replace', 'replace_only_after_call'])}
        t.do(op)
    return t


def functions(rng, i, tier):
    t = Trace(DistDriver, {})
    for _ in range(8):
        if rng.random() < 0.25:
            def lim():
                return [] if rng.random() < 0.4 else [rng.randrange(-5, 6)]
            lo, hi = lim(), lim()
            if lo and hi and lo > hi:
                lo, hi = hi, lo
            t.do({'op': 'clamp', 'n': rng.randrange(-7, 8), 'lo': lo,
                  'hi': hi, 'explicit': rng.random() < 0.5})
            continue
        op = rand_new(rng)
        n = rng.randrange(1, MANY - 2)
        if op['dist'] == 'gaussian':
            n = rng.randrange(-50, MANY)
        t.do({'op': 'fn', 'dist': op['dist'], 'mu': op['mu'], 'n': n,
              'sigma': op.get('sigma', 10), 'float': op['float']})
    return t


SUITES = {'dist': dist, 'dist_fn': functions}
