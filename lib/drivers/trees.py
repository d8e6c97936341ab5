"""Builds emitters, fields and schemas from recipes (JSON), at random too."""
import itertools

from base import dec

from fauxdoc.emitter import Emitter
from fauxdoc.emitters import (BasedOnFields, Choice, CopyFields, Iterative,
                              Sequential, Static, Text, Word, WrapMany,
                              WrapOne, chance, gaussian_choice,
                              poisson_choice)
from fauxdoc.profile import Field, Schema



class Stub(Emitter):
    """An emitter of a user's own: values of a list, again and again."""

    def __init__(self, items):
        self.stub_items = list(items)
        self.pos = 0

    def reset(self):
        self.pos = 0

    def emit(self):
        v = self.stub_items[self.pos % len(self.stub_items)]
        self.pos += 1
        return v

    def emit_many(self, number):
        return [self.emit() for _ in range(number)]


class Duck:
    """Something of a user's own with just what emitters have to have."""

    num_unique_values = None
    emits_unique_values = False

    def __init__(self, items):
        self.duck_items = list(items)
        self.pos = 0
        self.given = []
        self.restarts = 0

    def __call__(self, number=None):
        n = 1 if number is None else number
        vals = [self.duck_items[(self.pos + i) % len(self.duck_items)]
                for i in range(n)]
        self.pos += n
        self.given.extend(vals)
        return vals[0] if number is None else vals

    def reset(self):
        self.restarts += 1
        self.pos = 0


def recorded(em):
    """Makes an emitter note the values that it gives, in em.given."""
    if isinstance(em, Duck):
        return em
    base = type(em)

    class Recorded(base):
        def emit(self):
            self.depth += 1
            try:
                v = super().emit()
            finally:
                self.depth -= 1
            if not self.depth:
                self.given.append(v)
            return v

        def emit_many(self, number):
            self.depth += 1
            try:
                vs = super().emit_many(number)
            finally:
                self.depth -= 1
            if not self.depth:
                self.given.extend(vs)
            return vs

        def reset(self):
            self.restarts += 1
            super().reset()

    Recorded.__name__ = base.__name__
    em.__class__ = Recorded
    em.given, em.depth, em.restarts = [], 0, 0
    return em


def taken(em):
    """The values noted since the last time."""
    vals = list(em.given)
    em.given.clear()
    return vals


def restarts(em):
    """How often it was reset since the last time."""
    n, em.restarts = em.restarts, 0
    return n


FN1 = {
    'str': str,
    'tag': lambda v: f'<{v}>',
    'pair': lambda v: (v, v),
    'len': lambda v: len(str(v)) % 5,
    'rng': lambda v, rng: f'{v}/{rng.randrange(1000)}',
    'rngkw': lambda v, *, rng=None: (v, rng.random()),
    'wide': lambda v, rng: f'{v}{rng.getrandbits(100)}',
    'opt': lambda v, extra=7: f'{v}+{extra}',
}
FNM = {
    'join': lambda a, b: f'{a}-{b}',
    'kw': lambda **kw: tuple(sorted((k, str(v)) for k, v in kw.items())),
    'rng': lambda a, b, rng: (a, b, rng.randrange(1000)),
    'wide': lambda a, b, rng: (a, b, rng.getrandbits(100)),
    'sum': lambda a, b: len(str(a)) + len(str(b)),
}


OMIT = object()         # as a seed: it is left out


def build(r, seed=None, fields=None):
    k = r['k']
    given = {} if seed is OMIT else {'rng_seed': seed}
    part = OMIT if seed is OMIT else None
    if k == 'static':
        return Static(dec(r['v']))
    if k == 'iter':
        if r.get('inf'):
            return Iterative(lambda: itertools.count(r['inf']))
        vals = [dec(t) for t in r['items']]
        return Iterative(lambda: iter(vals), r.get('rac', False))
    if k == 'seq':
        return Sequential([dec(t) for t in r['items']], r.get('rac', False))
    if k == 'stub':
        return Stub([dec(t) for t in r['items']])
    if k == 'duck':
        return Duck([dec(t) for t in r['items']])
    if k == 'choice':
        items = range(r['n']) if 'n' in r else [dec(t) for t in r['items']]
        if r.get('as_str'):
            items = [f'{chr(97 + i % 26)}{i // 26 or ""}' for i in items]
        kw = {}
        if r.get('w'):
            kw['weights'] = r['w']
        if r.get('cw'):
            kw['cum_weights'] = r['cw']
        if r['mode'] == 'norep':
            kw['replace'] = False
        elif r['mode'] == 'uniq':
            kw['replace_only_after_call'] = True
        return Choice(items, **given, **kw)
    if k == 'chance':
        return chance(r['p'], **given)
    if k in ('poisson', 'gaussian'):
        kw = {}
        if r['mode'] == 'norep':
            kw['replace'] = False
        elif r['mode'] == 'uniq':
            kw['replace_only_after_call'] = True
        items = [dec(t) for t in r['items']]
        if k == 'poisson':
            return poisson_choice(items, r['mu'], r['floor'], **given,
                                  **kw)
        return gaussian_choice(items, r['mu'], r['sigma'], r['floor'],
                               **given, **kw)
    if k == 'word':
        return Word(build(r['length'], part), build(r['alphabet'], part),
                    **given)
    if k == 'text':
        sep = build(r['sep'], part) if r.get('sep') else None
        return Text(build(r['num'], part), build(r['word'], part), sep,
                    **given)
    if k == 'wrap1':
        return WrapOne(build(r['src'], part), FN1[r['fn']], **given)
    if k == 'wrapn':
        return WrapMany({n: build(s, part) for n, s in r['srcs'].items()},
                        FNM[r['fn']], **given)
    if k == 'copy':
        src = [fields[i] for i in r['of']]
        return CopyFields(src if r.get('list') else src[0], r.get('sep'))
    if k == 'based':
        src = [fields[i] for i in r['of']]
        return BasedOnFields(src if r.get('list') else src[0], BASED[r['fn']],
                             **given)
    if k == 'basedout':
        # It belongs to no field that seeds it.
        return BasedOnFields(build(r['field'], part), BASED[r['fn']], **given)
    if k == 'field':
        return Field(r['name'], build(r['em'], part, fields),
                     repeat=build(r['rep'], part) if r.get('rep') else None,
                     gate=build(r['gate'], part) if r.get('gate') else None,
                     hide=r.get('hide', False), **given)
    if k == 'schema':
        fs = []
        for f in r['fields']:
            fs.append(build(f, part, fs))
        s = Schema(*fs)
        if seed is not None and seed is not OMIT:
            s.seed_fields(seed)
        return s
    raise ValueError(k)


def _based_one(v, rng):
    return f'{v}~{rng.randrange(1000)}'


BASED = {
    'one': _based_one,
    'plain': lambda v: f'[{v}]',
    'wide': lambda v, rng: f'{v}{rng.getrandbits(100)}',
    'kw': lambda rng, **kw: ('/'.join(f'{k}={v}' for k, v in kw.items())
                             + f'#{rng.randrange(1000)}'),
}


# ------------------------------------------------------- random recipes

LETTERS = list('abcdefghijklmnop')


def weights(rng, n, zero=True):
    k = rng.randrange(3)
    if k == 0:
        ws = [rng.randrange(1, 9) for _ in range(n)]
    elif k == 1:
        ws = [rng.choice([0.5, 1.5, 2.25, 10]) for _ in range(n)]
    else:
        ws = [1] * n
    if zero and n > 2 and rng.random() < 0.3:
        ws[rng.randrange(n)] = 0
    return ws


def r_choice(rng, items, mode=None):
    mode = mode or rng.choice(['rep', 'rep', 'uniq', 'norep'])
    r = {'k': 'choice', 'items': items, 'mode': mode}
    k = rng.random()
    if k < 0.4:
        r['w'] = weights(rng, len(items))
    elif k < 0.55:
        r['cw'] = list(itertools.accumulate(weights(rng, len(items))))
    return r


def r_ints(rng, kinds, hi=4, lo=0):
    """An emitter of small integers."""
    k = rng.choice(kinds)
    vals = [f'int:{rng.randrange(lo, hi + 1)}'
            for _ in range(rng.randrange(1, 6))]
    if k == 'static':
        return {'k': 'static', 'v': vals[0]}
    if k in ('seq', 'iter'):
        return {'k': k, 'items': vals}
    if k == 'poisson':
        return {'k': 'poisson', 'items': vals, 'mu': rng.choice([1, 2, 3.5]),
                'floor': rng.choice([0, 0.01]), 'mode': 'rep'}
    if k == 'gaussian':
        return {'k': 'gaussian', 'items': vals, 'mu': rng.choice([0, 2, 3.5]),
                'sigma': rng.choice([1, 2.5]), 'floor': rng.choice([0, 0.01]),
                'mode': 'rep'}
    return r_choice(rng, vals, 'rep')


def r_strs(rng, kinds):
    k = rng.choice(kinds)
    n = rng.randrange(1, 8)
    vals = [rng.choice(LETTERS) for _ in range(n)]
    if k == 'static':
        return {'k': 'static', 'v': vals[0]}
    if k in ('seq', 'iter'):
        return {'k': k, 'items': vals}
    if k == 'norep':
        r = {'k': 'choice', 'n': 1500, 'mode': 'norep', 'as_str': True}
        if rng.random() < 0.3:
            r['w'] = [1 + i % 3 for i in range(1500)]
        return r
    if k == 'word':
        return r_word(rng, kinds)
    return r_choice(rng, vals, 'rep')


def leaf(kinds):
    return [k for k in kinds if k not in ('word', 'text', 'wrap')]


def r_word(rng, kinds):
    lv = leaf(kinds)
    ints = [k for k in lv if k != 'norep'] or ['static']
    return {'k': 'word', 'length': r_ints(rng, ints),
            'alphabet': r_strs(rng, lv)}


def r_text(rng, kinds):
    lv = leaf(kinds)
    ints = [k for k in lv if k != 'norep'] or ['static']
    r = {'k': 'text', 'num': r_ints(rng, ints),
         'word': r_strs(rng, lv + ['word'])}
    if rng.random() < 0.7:
        r['sep'] = r_strs(rng, [k for k in lv if k not in
                                ('poisson', 'gaussian')])
    return r


def r_any(rng, kinds, depth=2, rngfn=True):
    lv = leaf(kinds)
    strs = [k for k in lv if k not in ('poisson', 'gaussian')]
    k = rng.random()
    if depth == 0 or k < 0.1:
        return r_strs(rng, strs)
    if k < 0.35:
        return r_word(rng, kinds)
    if k < 0.6:
        return r_text(rng, kinds)
    if k < 0.8:
        fns = ['str', 'tag', 'pair', 'len', 'opt'] + \
            (['rng', 'rngkw'] if rngfn else [])
        return {'k': 'wrap1', 'src': r_any(rng, kinds, depth - 1, rngfn),
                'fn': rng.choice(fns)}
    fns = ['join', 'kw', 'sum'] + (['rng'] if rngfn else [])
    return {'k': 'wrapn', 'fn': rng.choice(fns),
            'srcs': {'a': r_any(rng, kinds, depth - 1, rngfn),
                     'b': r_any(rng, kinds, depth - 1, rngfn)}}


def r_field(rng, kinds, name, depth=1):
    r = {'k': 'field', 'name': name, 'em': r_any(rng, kinds, depth),
         'hide': rng.random() < 0.2}
    lv = leaf(kinds)
    if rng.random() < 0.5:
        r['rep'] = r_ints(rng, [k for k in lv if k != 'norep'] or ['static'])
    if rng.random() < 0.5 and 'choice' in lv:
        r['gate'] = {'k': 'chance', 'p': rng.choice([0.2, 0.5, 0.8])}
    return r


def r_schema(rng, kinds):
    n = rng.randrange(1, 4)
    fs = [r_field(rng, kinds, f'f{i}') for i in range(n)]
    for f in fs:
        if f.get('rep'):
            f['hide'] = False
    if rng.random() < 0.7:
        of = sorted(rng.sample(range(n), rng.randrange(1, n + 1)))
        lst = len(of) > 1
        k = rng.random()
        if k < 0.4:
            em = {'k': 'copy', 'of': of, 'list': lst,
                  'sep': rng.choice([None, ', '])}
        else:
            em = {'k': 'based', 'of': of, 'list': lst,
                  'fn': 'kw' if lst else rng.choice(['one', 'plain'])}
        fs.append({'k': 'field', 'name': 'x', 'em': em})
    return {'k': 'schema', 'fields': fs}
