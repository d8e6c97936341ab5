"""Drives real Choice emitters (spec/Choice.tla)."""
import datetime
import itertools

from base import (BIG, Equals, Trace, attempt, call_emitter, dec, geti, pick_how,
                  scribble)

from fauxdoc import dtrange
from fauxdoc.emitters import Choice

UNIT = 4            # weights are multiples of 1/UNIT, so exact as floats


def w_out(ws):
    out = []
    for w in ws:
        x = w * UNIT
        out.append(int(x) if x == int(x) and abs(x) < 2 ** 30 else -999999)
    return out


def w_in(ws, style):
    """Weights for the implementation, in different guises."""
    vals = [w / UNIT if w % UNIT or style == 'float' else w // UNIT
            for w in ws]
    return tuple(vals) if style == 'tuple' else list(vals)


def container(items, kind):
    if kind == 'tuple':
        return tuple(items)
    if kind == 'str':
        return ''.join(items)
    if kind == 'range':
        return range(items[0], items[0] + len(items))
    if kind == 'dtrange':
        return dtrange.DateOrTimeRange(items[0], len(items),
                                       datetime.timedelta(days=1))
    return list(items)


class ChoiceDriver:
    spec = 'Choice'

    def __init__(self, cfg):
        self.em = None
        self.enc = Equals([])

    def obs(self):
        off = {'on': False}
        if self.em is None:
            return off
        em = self.em

        def look():
            w, cw = em.weights, em.cum_weights
            return {
                'on': True, 'repl': em.replace,
                'roac': em.replace_only_after_call,
                'wnone': w is None, 'cwnone': cw is None,
                'w': w_out(w or ()), 'cw': w_out(cw or ()),
                'frozen': all(x is None or isinstance(x, tuple)
                              for x in (w, cw)),
                'nui': geti(em.num_unique_items),
                'nuv': geti(em.num_unique_values),
                'euv': em.emits_unique_values,
                'items': [self.enc(v) for v in em.items]}
        res, err = attempt(look)
        if err:
            return {'on': True, 'repl': False, 'roac': True, 'wnone': True,
                    'cwnone': False, 'w': [], 'cw': [], 'frozen': False,
                    'nui': -1, 'nuv': -1, 'euv': False,
                    'items': ['error', err]}
        return res

    def apply(self, op):
        ev = {'op': op['op'], 'how': op.get('how', ''), 'n': op.get('n', 0),
              'out': [], 'shape': '', 'err': '', 'b': op.get('b', False),
              'w': op.get('w', []), 'wnone': op.get('wnone', True),
              'cw': op.get('cw', []), 'cwnone': op.get('cwnone', True),
              'items': op.get('items', []), 'notseq': False,
              'repl': op.get('repl', True), 'roac': op.get('roac', False)}
        kind = op['op']
        style = op.get('style', 'list')
        if kind == 'new':
            if op.get('ckind') == 'dtrange':
                d0 = datetime.date(2016, 2, 27)
                vals = [d0 + datetime.timedelta(days=i)
                        for i in range(op['size'])]
            else:
                vals = [dec(t) for t in op['items']]
            self.enc = Equals(vals)
            ev['items'] = [self.enc(v) for v in vals]
            items = container(vals, op.get('ckind')) if vals else (
                [] if op.get('ckind') != 'tuple' else ())
            if op.get('ckind') == 'set':
                items = {1, 2, 3}
                ev['items'] = ['?']
                ev['notseq'] = True
            kw = {}
            if not ev['wnone']:
                self.given = kw['weights'] = w_in(op['w'], style)
            if not ev['cwnone']:
                self.given = kw['cum_weights'] = w_in(op['cw'], style)
            if not ev['repl'] or op.get('explicit'):
                kw['replace'] = ev['repl']
            if ev['roac'] or op.get('explicit'):
                kw['replace_only_after_call'] = ev['roac']
            if 'seed' in op:
                kw['rng_seed'] = op['seed']
            if 'noun' in op:
                kw['noun'] = op['noun']
            em, ev['err'] = attempt(Choice, items, **kw)
            if not ev['err']:
                self.em = em
        elif kind == 'call':
            ev['shape'], vals, ev['err'], raw = call_emitter(
                self.em, op['how'], op.get('n', 0))
            ev['out'] = [self.enc(v) for v in vals]
            if op.get('scribble') and ev['shape'] == 'list':
                scribble(raw)
        elif kind == 'reset':
            _, ev['err'] = attempt(self.em.reset)
        elif kind == 'seed':
            _, ev['err'] = attempt(self.em.seed, op['seed'])
        elif kind == 'scribble':
            # The caller changes the list of weights that it passed in.
            given = getattr(self, 'given', None)
            if isinstance(given, list) and given:
                given[0] += 3
                given.append(1)
        else:
            attr, val = {
                'set_w': ('weights', None), 'set_cw': ('cum_weights', None),
                'set_repl': ('replace', op.get('b')),
                'set_roac': ('replace_only_after_call', op.get('b')),
                'set_rng_seed': ('rng_seed', op.get('seed')),
                'look': (None, None)}[kind]
            if kind in ('set_w', 'set_cw') and not ev['wnone']:
                self.given = val = w_in(op['w'], style)
            if attr:
                _, ev['err'] = attempt(setattr, self.em, attr, val)
        ev['obs'] = self.obs() if op.get('look', True) else {'on': False}
        return ev


# ---------------------------------------------------------------- scripts

POOLS = [
    ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j'],
    ['int:0', "str:''", 'NoneType:None', 'bool:False', 'tuple:()', 'a', 'b'],
    ['int:1', 'int:2', 'int:-1', 'float:0.5', 'float:2.5', 'int:7'],
    ['list:[]', 'list:[1]', "dict:{'a': 1}", 'a', 'int:3'],
    ['Twin:1', 'Twin:2', 'Twin:3', 'a', 'int:1'],
    ['OddTwin:1', 'OddTwin:2', 'OddTwin:3', 'Twin:1', 'list:[1]'],
    ["str:'a'", "bytes:b'a'", 'int:1', "str:'1'", "str:'int'", "str:'A'",
     "str:'a '", 'tuple:(1,)', "str:''", "tuple:()", "str:'None'",
     'NoneType:None'],
]
# Values that are equal to others that look different.
EQUALS = [
    ['int:1', 'float:1.0', 'bool:True', 'int:2', 'float:2.0', 'a'],
    ['list:[1]', 'list:[1.0]', 'list:[True]', 'list:[0]', 'list:[False]',
     'int:1', 'list:[2]'],
    ["dict:{'a': 1, 'b': 2}", "dict:{'b': 2, 'a': 1}", 'dict:{}', 'a',
     'set:{1, 2}', 'set:{2, 1, 1.0}', 'set:{True}', 'set:{1}'],
    ['int:0', 'float:0.0', 'float:-0.0', 'bool:False', 'complex:0j',
     'tuple:(0,)', 'tuple:(False,)'],
]


def rand_items(rng, size=None, dups=None):
    pool = rng.choice(POOLS + (EQUALS if dups is not False else []))
    if pool in POOLS and 'bool:False' in pool:
        # bool and int 0 are equal: never both.
        drop = rng.choice(['bool:False', 'int:0'])
        pool = [p for p in pool if p != drop]
    if size is None:
        size = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8])
    if dups is None:
        dups = rng.random() < 0.4
    if dups:
        pool = rng.sample(pool, max(1, min(len(pool), size - 1)))
        return [rng.choice(pool) for _ in range(size)]
    if size <= len(pool):
        return rng.sample(pool, size)
    return [f'int:{i}' for i in rng.sample(range(1000), size)]


def rand_weights(rng, n, zeros=None):
    style = rng.randrange(4)
    if style == 0:
        ws = [rng.choice([1, 2, 3, 4, 8, 20]) for _ in range(n)]
    elif style == 1:
        ws = [4] * n
    elif style == 2:
        ws = [rng.choice([1, 400]) for _ in range(n)]
    else:
        ws = [4 * rng.randrange(1, 9) for _ in range(n)]
    if zeros is None:
        zeros = rng.random() < 0.35
    if zeros and n > 1:
        for i in range(n):
            if rng.random() < 0.5:
                ws[i] = 0
        if not any(ws):
            ws[rng.randrange(n)] = 4
    return ws


def accum(ws):
    return list(itertools.accumulate(ws))


def rand_new(rng, mode=None, size=None, weights=None, dups=None):
    op = {'op': 'new', 'style': rng.choice(['list', 'tuple', 'float']),
          'seed': rng.choice([None, 0, 1, 'x', '', -5, 3.5,
                              rng.randrange(10 ** 6), rng.randrange(10 ** 6)])}
    if op['seed'] is None:
        op['seed'] = rng.randrange(10 ** 6)
    k = rng.random()
    if k < 0.06 and size is None:
        op.update(ckind='str', items=rng.sample('abcdefghij',
                                                rng.randrange(1, 8)))
    elif k < 0.12:
        a, m = rng.randrange(-3, 4), size or rng.randrange(1, 9)
        op.update(ckind='range', items=[f'int:{i}' for i in range(a, a + m)])
    elif k < 0.16:
        op.update(ckind='dtrange', size=size or rng.randrange(1, 9), items=[])
    else:
        op.update(ckind=rng.choice(['list', 'list', 'tuple']),
                  items=rand_items(rng, size, dups))
    n = op.get('size') or len(op['items'])
    if weights or (weights is None and rng.random() < 0.5):
        ws = rand_weights(rng, n)
        if rng.random() < 0.5:
            op.update(w=ws, wnone=False)
        else:
            op.update(cw=accum(ws), cwnone=False)
    mode = mode or rng.choice(['rep', 'norep', 'norep', 'uniq', 'uniq'])
    op['repl'] = mode != 'norep'
    op['roac'] = mode == 'uniq'
    if mode == 'uniq' and rng.random() < 0.3:
        op['repl'] = False            # roac has priority
    if rng.random() < 0.3:
        op['explicit'] = True
    return op, n


def rand_count(rng, n, left):
    k = rng.random()
    if k < 0.1:
        return 0
    if k < 0.25:
        return 1
    if k < 0.45:
        return max(0, left)
    if k < 0.6:
        return left + rng.randrange(1, 3)
    return rng.randrange(0, max(2, n + 1))


def bad_new(rng):
    op, n = rand_new(rng)
    k = rng.randrange(4)
    if k == 0:
        op.update(items=[], ckind=rng.choice(['list', 'tuple']))
        op.pop('size', None)
        if rng.random() < 0.5:
            op.update(wnone=True, cwnone=True, w=[], cw=[])
    elif k == 1:
        op.update(ckind='set', items=[])
        op.pop('size', None)
    elif k == 2:
        ws = rand_weights(rng, n)
        op.update(w=ws, wnone=False, cw=accum(ws), cwnone=False)
    else:
        ws = rand_weights(rng, max(1, n + rng.choice([-2, -1, 1, 2])))
        if len(ws) == n:
            ws = ws + [4]
        if rng.random() < 0.5:
            op.update(w=ws, wnone=False, cw=[], cwnone=True)
        else:
            op.update(cw=accum(ws), cwnone=False, w=[], wnone=True)
    return op


def rand_set(rng, n, bad=0.0):
    k = rng.random()
    if k < 0.3:
        return {'op': 'set_repl', 'b': rng.random() < 0.5}
    if k < 0.55:
        return {'op': 'set_roac', 'b': rng.random() < 0.5}
    if k < 0.62:
        return {'op': rng.choice(['set_w', 'set_cw']), 'wnone': True}
    m = n
    if rng.random() < bad:
        m = max(1, n + rng.choice([-2, -1, 1, 2]))
        if m == n:
            m = n + 1
    ws = rand_weights(rng, m)
    style = rng.choice(['list', 'list', 'tuple', 'float'])
    if rng.random() < 0.5:
        return {'op': 'set_w', 'w': ws, 'wnone': False, 'style': style}
    return {'op': 'set_cw', 'w': accum(ws), 'wnone': False, 'style': style}


def script(rng, mode=None, weights=None, sets=0.0, bad=0.0, size=None,
           length=None, looks=0.8, dups=None):
    """One random trace; sets and bad are shares of the operations."""
    t = Trace(ChoiceDriver, {})
    if bad and rng.random() < bad:
        for _ in range(rng.randrange(1, 3)):
            t.do(bad_new(rng))
    op, n = rand_new(rng, mode, size, weights, dups)
    t.do(op)
    if t.evs[-1]['err']:
        return t
    em = t.driver.em
    for _ in range(length or rng.randrange(3, 13)):
        look = rng.random() < looks
        k = rng.random()
        if k < sets:
            op = rand_set(rng, n, bad)
        elif k < sets + 0.12:
            op = {'op': rng.choice(['reset', 'seed', 'set_rng_seed']),
                  'seed': rng.choice([0, 5, 'q', None,
                                      rng.randrange(1000)])}
        elif k < sets + 0.16:
            op = {'op': rng.choice(['scribble', 'look'])}
            look = True
        else:
            left = em.num_unique_items if not em.replace else n
            how = pick_how(rng)
            if not isinstance(left, int) or not -n <= left <= n:
                left = n
            op = {'op': 'call', 'how': how, 'n': rand_count(rng, n, left),
                  'scribble': rng.random() < 0.2}
        op['look'] = look
        ev = t.do(op)
        if ev['err'] in ('Hang', 'MemoryError'):
            break
    return t


def norep(rng, i, tier):
    if i % 10 == 9:
        return script(rng, 'norep', size=rng.choice([12, 20, 30, 47]),
                      length=8, looks=0.4)
    return script(rng, 'norep', sets=0.1 if i % 3 == 0 else 0.0)


def uniq(rng, i, tier):
    if i % 5 == 4:
        # Both sampling algorithms, on both sides of where they switch.
        size = rng.choice([10, 12, 19, 24, 31, 50])
        t = Trace(ChoiceDriver, {})
        dups = rng.random() < 0.5
        op, n = rand_new(rng, 'uniq', size, weights=rng.random() < 0.8,
                         dups=dups)
        if dups and not op.get('size') and rng.random() < 0.7:
            # Equal items that are likely to be chosen.
            v = rng.choice(op['items'])
            ws = [rng.choice([40, 90]) if x == v else 1 for x in op['items']]
            op.update(w=ws, wnone=False, cw=[], cwnone=True)
        t.do(op)
        for k in rng.sample(range(0, n + 2), min(n, 6)):
            t.do({'op': 'call', 'how': 'many', 'n': k, 'look': False})
        return t
    return script(rng, 'uniq', sets=0.1 if i % 3 == 0 else 0.0)


def settings(rng, i, tier):
    return script(rng, sets=0.5, bad=0.15 if i % 2 else 0.0)


def rejected(rng, i, tier):
    return script(rng, sets=0.4, bad=0.6, looks=1.0)


def weights(rng, i, tier):
    if i % 6 == 5:
        return script(rng, weights=True, size=rng.choice([10, 16, 25]),
                      length=5, looks=0.3, dups=False)
    return script(rng, weights=True, sets=0.15)


def mixed(rng, i, tier):
    return script(rng, sets=0.15, looks=1.0)


def big(rng, i, tier):
    """Many values at once, of few items or of many."""
    t = Trace(ChoiceDriver, {})
    mode = ['rep', 'norep', 'uniq', 'rep'][i % 4]
    size = rng.choice([1, 2, 3, 7])
    if mode != 'rep':
        size = rng.choice([130, 257, 300, 513, 600])
    op, n = rand_new(rng, mode, size, dups=False)
    op['look'] = False
    t.do(op)
    for _ in range(3):
        k = rng.choice(BIG)
        if mode != 'rep':
            k = rng.choice([n, n - 1, n + 1, n // 2, n // 3, 100])
        t.do({'op': 'call', 'how': rng.choice(['many', 'emit_many']), 'n': k,
              'scribble': rng.random() < 0.2, 'look': False})
        t.do({'op': 'call', 'how': 'one', 'n': 0, 'look': False})
        if rng.random() < 0.4:
            t.do({'op': 'reset', 'look': False})
    return t


SUITES = {'choice_big': big, 'choice_norep': norep, 'choice_uniq': uniq,
          'choice_settings': settings, 'choice_rejected': rejected,
          'choice_weights': weights, 'choice_mixed': mixed}

WALKS = {'choice': {
    'driver': 'ChoiceDriver', 'outputs': ('out', 'shape', 'err'),
    'op': lambda op, rng: dict(op, seed=rng.randrange(10 ** 9)),
    'length': 14}}
