"""Drives real Static, Iterative and Sequential emitters (spec/Fixed.tla)."""
import itertools
import warnings

from base import (BIG, Equals, Trace, attempt, call_emitter, dec, enc, geti,
                  pick_how, scribble)
from choice import EQUALS

from fauxdoc.emitters import Iterative, Sequential, Static

MANY = 500          # length of the prefix of an infinite source


def factory(vals, style):
    """A callable that gives an iterator over vals."""
    if style == 'gen':
        def gen():
            yield from vals
        return gen
    if style == 'map':
        return lambda: map(lambda v: v, vals)
    if style == 'chain':
        return lambda: itertools.chain(vals[:1], vals[1:])
    if style == 'tuple':
        return lambda: iter(tuple(vals))
    if style == 'reversed':
        return lambda: reversed(vals[::-1])
    if style == 'count':
        return lambda: itertools.count(vals[0])
    if style == 'method':
        return vals.__iter__
    return lambda: iter(vals)


class Counter:
    """Counts the values that are taken from the iterators of a factory."""

    def __init__(self, fn):
        self.fn = fn
        self.n = 0

    def __call__(self):
        for v in self.fn():
            self.n += 1
            yield v


class Live:
    """A factory whose iterators give values that tell which one it was."""

    def __init__(self, vals):
        self.vals = vals
        self.passes = 0

    def __call__(self):
        self.passes += 1
        now = self.passes
        return ((now, v) for v in self.vals)


BAD = {'notiter': [lambda: 5, lambda: [1, 2], lambda: None, 7, lambda x: x],
       'notseq': [lambda: (x for x in 'ab'), lambda: map(str, [1, 2]),
                  lambda: itertools.count(3), lambda: zip('ab', 'cd')],
       'empty': [lambda: iter([]), lambda: iter(()), lambda: iter('')]}


class FixedDriver:
    spec = 'Fixed'

    def __init__(self, cfg):
        self.em = None
        self.enc = enc
        self.kind = 'none'
        self.counter = None      # counts what is taken from the source
        self.factory = None      # what was set last

    def gives_items(self, em):
        """Whether a factory that was never set gives iterators of items."""
        if self.kind != 'seq':
            return True
        first, second = em.iterator_factory(), em.iterator_factory()
        return iter(first) is first and first is not second and \
            list(first) == list(second) == list(em.items)

    def obs(self):
        em = self.em
        if em is None:
            return {'on': False}

        def look():
            nuv = em.num_unique_values
            return {'on': True,
                    'items': [] if self.kind == 'iter'
                    else [self.enc(v) for v in em.items],
                    'nuv': -1 if nuv is None else geti(nuv),
                    'euv': em.emits_unique_values is not False,
                    'own': self.factory is not None or self.gives_items(em),
                    'fac': self.factory is None
                    or em.iterator_factory is self.factory,
                    'rac': getattr(em, 'reset_after_call', False)}
        res, err = attempt(look)
        return res if not err else {'on': True, 'items': ['error', err],
                                    'nuv': -2, 'euv': True, 'rac': False,
                                    'fac': False, 'own': False}

    def apply(self, op):
        ev = {'op': op['op'], 'kind': op.get('kind', ''),
              'how': op.get('how', ''), 'n': op.get('n', 0), 'out': [],
              'shape': '', 'err': '', 'b': op.get('b', False),
              'items': op.get('items', []), 'src': op.get('src', ''),
              'warned': 0, 'taken': -1, 'passes': []}
        before = self.counter.n if self.counter else 0
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter('always')
            self._apply(op, ev)
            if self.counter and op['op'] == 'call':
                ev['taken'] = self.counter.n - before
            ev['obs'] = self.obs() if op.get('look', True) else {'on': False}
        ev['warned'] = sum(issubclass(w.category, DeprecationWarning)
                           for w in log)
        return ev

    def source(self, op):
        if op['src'] != 'ok':
            opts = BAD[op['src']]
            return opts[op.get('pick', 0) % len(opts)]
        if op.get('style') == 'count':
            vals = list(range(op['from'], op['from'] + MANY))
        else:
            vals = [dec(t) for t in op['items']]
        if op.get('style') == 'live':
            return Live(vals)
        fac = factory(vals, op.get('style'))
        return Counter(fac) if op.get('counted') else fac

    def made(self, fac):
        self.factory = fac
        self.counter = fac if isinstance(fac, Counter) else None

    def _apply(self, op, ev):
        kind = op['op']
        if op.get('style') == 'count':
            ev['items'] = [enc(i) for i in range(op['from'],
                                                 op['from'] + MANY)]
        was = self.enc
        if kind in ('new', 'set_source', 'set_value') and ev['items']:
            self.enc = Equals([dec(t) for t in ev['items']])
            ev['items'] = [self.enc(dec(t)) for t in ev['items']]
        self._change(op, ev)
        if ev['err']:
            self.enc = was

    def _change(self, op, ev):
        kind = op['op']
        if kind == 'new':
            k = op['kind']
            if k == 'static':
                em, ev['err'] = attempt(Static, dec(op['items'][0]))
            elif k == 'iter':
                args = (op['b'],) if op['b'] or op.get('explicit') else ()
                fac = self.source(op)
                em, ev['err'] = attempt(Iterative, fac, *args)
                if not ev['err']:
                    self.made(fac)
            else:
                vals = [dec(t) for t in op['items']]
                if op['src'] == 'empty':
                    vals = []
                style = op.get('style')
                if style == 'str':
                    vals = ''.join(vals)
                elif style == 'tuple':
                    vals = tuple(vals)
                elif style == 'range':
                    vals = range(vals[0], vals[0] + len(vals)) if vals \
                        else range(0)
                kw = {'reset_after_call': op['b']} \
                    if op['b'] or op.get('explicit') else {}
                em, ev['err'] = attempt(Sequential, vals, **kw)
            if not ev['err']:
                self.em, self.kind = em, k
        elif kind == 'call':
            if op['how'] == 'next':
                res, ev['err'] = attempt(lambda: next(self.em.iterator))
                ev['shape'], vals, raw = 'one', [res], None
            else:
                ev['shape'], vals, ev['err'], raw = call_emitter(
                    self.em, op['how'], op.get('n', 0))
            if isinstance(self.factory, Live) and not ev['err']:
                ok = [v if type(v) is tuple and len(v) == 2 else (-1, v)
                      for v in vals]
                ev['passes'] = [geti(p) for p, _ in ok]
                vals = [v for _, v in ok]
            ev['out'] = [self.enc(v) for v in vals]
            if op.get('scribble') and ev['shape'] == 'list':
                scribble(raw)
        elif kind == 'reset':
            _, ev['err'] = attempt(self.em.reset)
        elif kind == 'set_rac':
            _, ev['err'] = attempt(setattr, self.em, 'reset_after_call',
                                   op['b'])
        elif kind == 'set_source':
            fac = self.source(op)
            _, ev['err'] = attempt(setattr, self.em, 'iterator_factory', fac)
            if not ev['err']:
                self.made(fac)
        elif kind == 'set_value':
            _, ev['err'] = attempt(setattr, self.em, 'value',
                                   dec(op['items'][0]))


# ---------------------------------------------------------------- scripts

POOL = ['a', 'b', 'c', 'd', 'int:0', 'int:1', 'int:-3', "str:''",
        'NoneType:None', 'bool:False', 'float:0.5', 'list:[]', 'tuple:(1, 2)',
        "dict:{'k': 1}", 'e', 'f', 'g', 'h']


def rand_items(rng):
    if rng.random() < 0.12:
        pool = rng.choice(EQUALS)
        return [rng.choice(pool) for _ in range(rng.choice([1, 2, 3, 4, 7]))]
    pool = [p for p in POOL if p != rng.choice(['int:0', 'bool:False'])]
    if 'int:0' in pool and 'bool:False' in pool:
        pool.remove('bool:False')
    k = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 7, 11])
    return [rng.choice(pool) for _ in range(k)]


def rand_source(rng, kind, bad):
    if rng.random() < bad:
        src = rng.choice(['empty', 'notiter'] if kind == 'iter'
                         else ['empty', 'notseq'])
        return {'src': src, 'items': [], 'pick': rng.randrange(10)}
    if kind == 'iter':
        style = rng.choice(['list', 'gen', 'map', 'chain', 'tuple', 'reversed',
                            'count', 'method'])
        if style == 'count':
            return {'src': 'ok', 'items': [], 'style': style,
                    'from': rng.randrange(-2, 5),
                    'counted': rng.random() < 0.5}
    else:
        style = rng.choice(['list', 'tuple', 'reversed', 'method'])
    return {'src': 'ok', 'items': rand_items(rng), 'style': style,
            'counted': kind == 'iter' and rng.random() < 0.5}


def rand_new(rng, kind, bad=0.0):
    op = {'op': 'new', 'kind': kind, 'b': rng.random() < 0.3}
    if kind == 'static':
        op.update(items=rand_items(rng)[:1], src='ok', b=False)
    elif kind == 'iter':
        op.update(rand_source(rng, kind, bad))
        op['explicit'] = rng.random() < 0.5
    else:
        style = rng.choice(['list', 'list', 'tuple', 'str', 'range'])
        if style == 'str':
            items = [rng.choice('abcde') for _ in range(rng.randrange(1, 7))]
        elif style == 'range':
            a = rng.randrange(-3, 4)
            items = [f'int:{i}' for i in range(a, a + rng.randrange(1, 7))]
        else:
            items = rand_items(rng)
        op.update(items=items, style=style, src='ok',
                  explicit=rng.random() < 0.5)
        if rng.random() < bad:
            op.update(items=[], src='empty')
    return op


def script(rng, kind=None, sets=0.15, bad=0.0, looks=0.5, length=None):
    t = Trace(FixedDriver, {})
    kind = kind or rng.choice(['static', 'iter', 'iter', 'seq', 'seq'])
    while t.driver.em is None:
        t.do(rand_new(rng, kind, bad))
        if len(t.evs) > 5:
            return t
    size, used = 3, 0
    for _ in range(length or rng.randrange(3, 16)):
        look = rng.random() < looks
        k = rng.random()
        size = len(t.evs[0]['items']) if len(t.evs) == 1 else size
        if k < sets and kind == 'static':
            op = {'op': 'set_value', 'items': rand_items(rng)[:1]}
        elif k < sets:
            if rng.random() < 0.45:
                op = {'op': 'set_rac', 'b': rng.random() < 0.5}
            else:
                op = dict(rand_source(rng, kind, bad), op='set_source')
                if op['src'] == 'ok':
                    size, used = len(op['items']) or MANY, 0
        elif k < sets + 0.12:
            op = {'op': 'reset'}
        elif k < sets + 0.15:
            op, look = {'op': 'look'}, True
        else:
            n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, size, size + 1,
                            2 * size, 3 * size + 1, 27])
            if size > 50:
                n = rng.randrange(0, 12)
            how = pick_how(rng)
            if kind != 'static' and rng.random() < 0.06:
                how = 'next'
            op = {'op': 'call', 'how': how, 'n': n,
                  'scribble': rng.random() < 0.2}
            used += n
        op['look'] = look
        ev = t.do(op)
        if ev['err'] in ('Hang', 'MemoryError'):
            break
    return t


def mixed(rng, i, tier):
    return script(rng, looks=0.6)


def streams(rng, i, tier):
    return script(rng, rng.choice(['iter', 'seq']), sets=0.0, looks=0.0,
                  length=rng.randrange(6, 25))


def settings(rng, i, tier):
    return script(rng, sets=0.5, looks=0.7)


def rejected(rng, i, tier):
    return script(rng, rng.choice(['iter', 'seq']), sets=0.5, bad=0.5,
                  looks=1.0)


def deprecated(rng, i, tier):
    return script(rng, rng.choice(['seq', 'seq', 'seq', 'iter', 'static']),
                  sets=0.45, bad=0.15, looks=0.7)


def big(rng, i, tier):
    """Many values at once, and what comes next."""
    t = Trace(FixedDriver, {})
    op = rand_new(rng, ['iter', 'seq', 'static'][i % 3])
    if op.get('style') == 'count':
        op.update(style='gen', items=rand_items(rng))
    op['look'] = False
    t.do(op)
    for _ in range(3):
        t.do({'op': 'call', 'how': rng.choice(['many', 'emit_many']),
              'n': rng.choice(BIG), 'scribble': rng.random() < 0.2,
              'look': False})
        t.do({'op': 'call', 'how': 'one', 'look': False})
        if rng.random() < 0.3:
            t.do({'op': 'reset', 'look': False})
    return t


def live(rng, i, tier):
    """Sources that give something else each time."""
    t = Trace(FixedDriver, {})
    op = dict(rand_source(rng, 'iter', 0), op='new', kind='iter',
              style='live', b=rng.random() < 0.2, look=False)
    op.update(items=rand_items(rng), counted=False)
    t.do(op)
    size = len(op['items'])
    for _ in range(rng.randrange(4, 14)):
        k = rng.random()
        if k < 0.08:
            op = {'op': 'set_source', 'src': 'ok', 'style': 'live',
                  'items': rand_items(rng)}
            size = len(op['items'])
        elif k < 0.2:
            op = {'op': 'reset'}
        elif k < 0.28:
            op = {'op': 'set_rac', 'b': rng.random() < 0.5}
        else:
            op = {'op': 'call', 'n': rng.choice(
                      [0, 1, 2, 3, size, size + 1, 2 * size, 3 * size + 1]),
                  'how': 'next' if rng.random() < 0.1 else pick_how(rng)}
        op['look'] = rng.random() < 0.3
        t.do(op)
    return t


SUITES = {'fixed_big': big, 'fixed_live': live, 'fixed_mixed': mixed, 'fixed_streams': streams,
          'fixed_settings': settings, 'fixed_rejected': rejected,
          'fixed_deprecated': deprecated}


def walk_op(op, rng):
    op = dict(op, pick=rng.randrange(10), explicit=rng.random() < 0.5)
    op['style'] = rng.choice(['list', 'tuple', 'method'])
    return op


WALKS = {'fixed': {
    'driver': 'FixedDriver', 'outputs': ('out', 'shape', 'err', 'warned'),
    'op': walk_op, 'length': 14}}
