"""Drives real Word and Text emitters (spec/Text.tla)."""
import trees
from base import (BIG, Trace, attempt, call_emitter, dec, geti, pick_how,
                  scribble)

from fauxdoc.emitters import Text, Word, make_alphabet


def part(r):
    """What the specification knows of a part."""
    p = {'fixed': r['k'] in ('static', 'seq', 'iter', 'stub', 'duck'),
         'items': [], 'fin': r['k'] in ('static', 'seq', 'choice'),
         'word': []}
    if r['k'] == 'word':
        p['word'] = [part(r['length']), part(r['alphabet'])]
    elif r['k'] == 'static':
        p['items'] = [dec(r['v'])]
    else:
        p['items'] = [dec(t) for t in r['items']]
    return p


NONE = {'fixed': False, 'items': [], 'fin': False, 'word': []}


class TextDriver:
    spec = 'Text'

    def __init__(self, cfg):
        self.em = None
        self.parts = {}

    def obs(self, op):
        if self.em is None or not op.get('look'):
            return {'on': False}
        nuv, err = attempt(lambda: self.em.num_unique_values)
        return {'on': True,
                'nuv': -2 if err else -1 if nuv is None else geti(nuv),
                'euv': self.em.emits_unique_values is not False}

    def taken(self, name):
        vals = trees.taken(self.parts[name]) if name in self.parts else []
        if name == 'num':
            return [geti(v) for v in vals]
        return [v if isinstance(v, str) else repr(v) for v in vals]

    def apply(self, op):
        kind = op['op']
        ev = {'op': kind, 'kind': op.get('kind', ''),
              'how': op.get('how', ''), 'n': op.get('n', 0), 'out': [],
              'shape': '', 'err': '', 'num': [], 'tok': [], 'sep': [],
              'spaces': False, 'vocab': False, 'parts': {},
              'over': {'num': 0, 'tok': 0, 'sep': 0}}
        if kind == 'alpha':
            rs = op['ranges']
            args = ([tuple(r) for r in rs],) if rs else \
                () if op.get('omit') else (None,)
            out, ev['err'] = attempt(make_alphabet, *args)
            ev.update(default=not rs, ranges=rs,
                      codes=[ord(c) if isinstance(c, str) and len(c) == 1
                             else -1 for c in out or []], obs={'on': False})
            return ev
        if kind == 'new':
            rs = op['parts']
            ev['parts'] = {'num': part(rs['num']), 'tok': part(rs['tok']),
                           'sep': part(rs['sep']) if rs.get('sep') else NONE}
            ev['spaces'] = op['kind'] == 'text' and not rs.get('sep')
            ev['vocab'] = rs['tok'].get('mode') == 'uniq'
            self.parts = {n: trees.recorded(trees.build(r, op.get('seed')))
                          for n, r in rs.items() if r}
            a = self.parts
            if op['kind'] == 'word':
                em, ev['err'] = attempt(Word, a['num'], a['tok'],
                                        rng_seed=op.get('seed'))
            else:
                args = (a['sep'],) if 'sep' in a else ()
                em, ev['err'] = attempt(Text, a['num'], a['tok'], *args,
                                        rng_seed=op.get('seed'))
            self.em = em
            for n in a:
                self.taken(n)
                trees.restarts(a[n])
        elif kind == 'call':
            ev['shape'], vals, ev['err'], raw = call_emitter(
                self.em, op['how'], op.get('n', 0))
            ev['out'] = [v if isinstance(v, str) else f'?{v!r}'
                         for v in vals]
            for n in ('num', 'tok', 'sep'):
                ev[n] = self.taken(n)
            ev['over'].update((n, trees.restarts(p))
                              for n, p in self.parts.items())
            if op.get('scribble') and ev['shape'] == 'list':
                scribble(raw)
        elif kind == 'reset':
            _, ev['err'] = attempt(self.em.reset)
            for p in self.parts.values():
                trees.restarts(p)
        elif kind == 'set_roac':
            # The user changes how the word emitter replaces its words.
            ev['vocab'] = op['b']
            _, ev['err'] = attempt(setattr, self.parts['tok'],
                                   'replace_only_after_call', op['b'])
        ev['obs'] = self.obs(op)
        return ev


# ---------------------------------------------------------------- scripts

CHARS = ['a', 'b', 'c', 'd', 'e', 'x', 'yz', '', ' ', '-', '.', 'A', '0']


def rand_part(rng, vals, kinds=None):
    k = rng.choice(kinds or ['static', 'seq', 'seq', 'iter', 'stub', 'duck',
                             'choice'])
    if k == 'static':
        return {'k': k, 'v': vals[0]}
    if k == 'choice':
        r = {'k': k, 'items': vals, 'mode': 'rep'}
        if rng.random() < 0.3:
            r['w'] = [rng.randrange(1, 5) for _ in vals]
        return r
    return {'k': k, 'items': vals}


def rand_ints(rng, hi):
    k = rng.randrange(4)
    if k == 0:
        vals = [rng.choice([0, 1, 2]) for _ in range(rng.randrange(1, 5))]
    elif k == 1:
        vals = [rng.randrange(1, hi + 1)]
    else:
        vals = [rng.randrange(0, hi + 1) for _ in range(rng.randrange(1, 6))]
    return rand_part(rng, [f'int:{min(v, hi)}' for v in vals])


def toks(rng, n, plain=False):
    vals = rng.sample('abcdefgh' if plain else CHARS, n)
    return [v if v.isalpha() else f"str:{v!r}" for v in vals]


def dups(rng, vals):
    if rng.random() < 0.4:
        vals = vals + [rng.choice(vals) for _ in range(rng.randrange(1, 3))]
    rng.shuffle(vals)
    return vals


def rand_new(rng, kind, vocab=False):
    op = {'op': 'new', 'kind': kind, 'look': True,
          'seed': rng.choice([None, rng.randrange(10 ** 6)])}
    if kind == 'word':
        op['parts'] = {
            'num': rand_ints(rng, 4),
            'tok': rand_part(rng, dups(rng, toks(rng, rng.randrange(1, 5))))}
        return op
    sep = None
    if rng.random() < 0.6:
        sep = rand_part(rng, dups(rng, toks(rng, rng.randrange(1, 4))))
    if vocab:
        n = rng.choice([1, 2, 3, 4, 5, 8])
        tok = {'k': 'choice', 'items': toks(rng, n), 'mode': 'uniq'}
        if rng.random() < 0.4:
            tok['w'] = [rng.randrange(1, 5) for _ in range(n)]
        num = rand_ints(rng, rng.choice([2, 3, 4]))
    elif rng.random() < 0.25:
        tok = {'k': 'word', 'length': rand_ints(rng, 3),
               'alphabet': rand_part(rng, toks(rng, rng.randrange(1, 4)))}
        num = rand_ints(rng, 2)
    else:
        tok = rand_part(rng, dups(rng, toks(rng, rng.randrange(1, 6))))
        num = rand_ints(rng, rng.choice([2, 3, 4]))
    op['parts'] = {'num': num, 'tok': tok, 'sep': sep}
    return op


def script(rng, kind=None, vocab=False, looks=0.2, length=None):
    t = Trace(TextDriver, {})
    op = rand_new(rng, kind, vocab)
    if vocab and len(op['parts']['tok']['items']) > 5:
        op['look'] = False
    t.do(op)
    look = op['look']
    for _ in range(length or rng.randrange(2, 9)):
        if rng.random() < 0.12:
            op = {'op': 'reset'}
        else:
            op = {'op': 'call', 'how': pick_how(rng),
                  'n': rng.choice([0, 1, 2, 2, 3, 4, 5, 7, 12, 30]),
                  'scribble': rng.random() < 0.2}
        op['look'] = look and rng.random() < looks
        ev = t.do(op)
        if ev['err']:
            break
    return t


def word(rng, i, tier):
    return script(rng, 'word')


def text(rng, i, tier):
    return script(rng, 'text', vocab=False)


def vocab(rng, i, tier):
    if i % 3 == 2:
        return switched(rng)
    return script(rng, 'text', vocab=True)


def switched(rng):
    """Words are replaced after each call, or at once, in turns."""
    t = Trace(TextDriver, {})
    op = rand_new(rng, 'text', True)
    op['parts']['tok']['mode'] = rng.choice(['rep', 'uniq'])
    op['look'] = False
    t.do(op)
    now = op['parts']['tok']['mode'] == 'uniq'
    for _ in range(rng.randrange(3, 9)):
        k = rng.random()
        if k < 0.3:
            now = not now
            op = {'op': 'set_roac', 'b': now}
        elif k < 0.4:
            op = {'op': 'reset'}
        else:
            op = {'op': 'call', 'how': pick_how(rng),
                  'n': rng.choice([1, 2, 3, 4, 5, 7, 12])}
        t.do(op)
    return t


def counts(rng, i, tier):
    return script(rng, 'word' if i % 2 else 'text', looks=1.0, length=2)


# Where something about code points changes.
EDGES = [0, 9, 31, 32, 33, 126, 127, 160, 173, 255, 256, 0x300, 0x378, 0x5d0,
         0x7ff, 0x800, 0x1fff, 0x2000, 0x200b, 0x2028, 0x202e, 0x2060, 0x3000,
         0xac00, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xf8ff,
         0xfeff, 0xfffd, 0xffff, 0x10000, 0x1d400, 0x1f600, 0x20000, 0xe0001,
         0xf0000, 0x100000, 0x10fff0]


def alpha(rng, i, tier):
    t = Trace(TextDriver, {})
    if i % 7 == 0:
        t.do({'op': 'alpha', 'ranges': [], 'omit': i % 2 == 0})
    for _ in range(4):
        rs = []
        for _ in range(rng.randrange(1, 5)):
            a = rng.choice([rng.choice(EDGES), rng.choice(EDGES),
                            rng.randrange(2000), rng.randrange(0x10ff00)])
            a = max(0, a - rng.choice([0, 0, 1, 3]))
            b = a + rng.choice([0, 0, 1, 2, 5, 9, 15, -1])
            rs.append([a, min(b, 0x10ffff)])
        if rng.random() < 0.3:
            rs.append(rng.choice(rs))
        t.do({'op': 'alpha', 'ranges': rs})
    return t


LONG = [40, 63, 64, 65, 99, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513,
        600, 1000, 1023, 1024, 1025, 2000]


def long(rng, i, tier):
    """Long words, texts of many words, and much of both at once."""
    t = Trace(TextDriver, {})
    kind = 'word' if i % 2 else 'text'
    op = rand_new(rng, kind, vocab=kind == 'text' and i % 3 == 0)
    if op['parts']['tok']['k'] == 'word':
        op['parts']['tok'] = {'k': 'seq', 'items': ['a', 'b', 'c', 'd', 'e']}
    one = rng.random() < 0.5
    vals = [f'int:{rng.choice(LONG)}'
            for _ in range(1 if one else rng.randrange(1, 4))]
    op['parts']['num'] = rand_part(rng, vals, ['static', 'seq', 'stub', 'duck'])
    op['look'] = False
    t.do(op)
    left = 9000
    for _ in range(5):
        n = rng.choice([0, 1, 1, 2, 3, 5, 10, 30])
        most = max(int(v[4:]) for v in vals)
        n = min(n, left // most)
        left -= max(n, 1) * most
        if left < 0:
            break
        t.do({'op': 'call', 'how': pick_how(rng), 'n': n, 'look': False})
    return t


def big(rng, i, tier):
    """Many words or texts at once, and what comes next."""
    t = Trace(TextDriver, {})
    op = rand_new(rng, 'word' if i % 2 else 'text', vocab=i % 6 == 2)
    if op['parts']['tok']['k'] == 'word':
        op['parts']['tok'] = {'k': 'seq', 'items': ['a', 'b', 'c']}
    op['parts']['num'] = {'k': 'seq', 'items': ['int:1', 'int:0', 'int:2']}
    op['look'] = False
    t.do(op)
    for _ in range(2):
        t.do({'op': 'call', 'how': rng.choice(['many', 'emit_many']),
              'n': rng.choice([k for k in BIG if k < 1100]), 'look': False})
        t.do({'op': 'call', 'how': 'one', 'look': False})
    return t


SUITES = {'text_big': big, 'text_long': long, 'word': word, 'text': text, 'text_vocab': vocab,
          'text_counts': counts, 'alphabet': alpha}


def walk_op(op, rng):
    if op['op'] != 'new':
        return {k: op[k] for k in ('op', 'how', 'n')}
    parts = {}
    for n, p in op['parts'].items():
        vals = [f'int:{v}' if isinstance(v, int) else
                v if v.isalpha() else f'str:{v!r}' for v in p['items']]
        parts[n] = {'k': 'seq', 'items': vals}
    if op['kind'] == 'word' or op['spaces']:
        parts['sep'] = None
    return {'op': 'new', 'kind': op['kind'], 'parts': parts,
            'look': rng.random() < 0.5, 'seed': rng.randrange(100)}


WALKS = {'text': {
    'driver': 'TextDriver', 'op': walk_op, 'length': 12,
    'outputs': ('out', 'shape', 'err', 'num', 'tok', 'sep')}}
