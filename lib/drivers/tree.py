"""Drives composites of emitters, fields and schemas through seedings and
resets (spec/Tree.tla)."""
import hashlib
import json
import random

import trees
from base import Trace, attempt, dec, pick_how
from memo import cut

from fauxdoc.emitter import Emitter
from fauxdoc.emitters import (BasedOnFields, Choice, CopyFields, Iterative,
                              Sequential, Static, Text, Word, WrapMany,
                              WrapOne)
from fauxdoc.mixins import (ChildrenMixin, ItemsMixin, RandomMixin,
                            RandomWithChildrenMixin)
from fauxdoc.profile import Field, Schema

SEEDS = ['int:0', 'int:1', 'int:7', 'int:-5', 'a', "str:''", 'float:2.5',
         "bytes:b'xy'", 'int:123456789012345678901', 'seed']
NONE = 'NoneType:None'
DRAWN = {}


def tables():
    for s in SEEDS:
        g = random.Random(dec(s))
        for k in range(4000):
            DRAWN[g.random()] = f'{s}@{k}'


def drawn(v):
    if not DRAWN:
        tables()
    return DRAWN.get(v, '?')


def seed_tok(v):
    for s in SEEDS:
        d = dec(s)
        if type(d) is type(v) and d == v:
            return s
    return 'None' if v is None else f'{v!r}'


LOG = []


class Logs:
    num = 0

    def note(self, n, vals):
        LOG.append({'node': self.num, 'n': n, 'vals': vals})


def made_of(conf, v):
    if conf == 'int':
        return int(v * 4)
    if conf == 'bool':
        return v < 0.7
    return 'abcdefgh'[int(v * 8)]


class Probe(RandomMixin, Emitter, Logs):
    """A random emitter whose values show what its generator gave."""

    def __init__(self, conf, rng_seed=None):
        self.conf = conf
        super().__init__(rng_seed=rng_seed)

    def draw(self):
        v = self.rng.random()
        return drawn(v), made_of(self.conf, v)

    def emit(self):
        t, v = self.draw()
        self.note(-1, [t])
        return v

    def emit_many(self, number):
        tv = [self.draw() for _ in range(number)]
        self.note(number, [t for t, _ in tv])
        return [v for _, v in tv]


class Only(Probe):
    """A random emitter that looks after its seed by itself."""

    def __init__(self, conf, first=None):
        self.conf, self.first = conf, first
        self.reset()

    def reset(self):
        self.rng = random.Random(self.first)

    def seed(self, rng_seed):
        self.first = rng_seed
        self.reset()


class Kids(RandomWithChildrenMixin, Emitter, Logs):
    """A composite emitter of a user's own."""

    def __init__(self, children, rng_seed=None):
        super().__init__(children=children, rng_seed=rng_seed)

    def emit(self):
        v = self.rng.random()
        self.note(-1, [drawn(v)])
        return f"{v}({','.join(str(e()) for e in self.emitters.values())})"

    def emit_many(self, number):
        return [self.emit() for _ in range(number)]


class Bare:
    """A base class that can neither be reset nor seeded."""
    num_unique_values = None
    emits_unique_values = False

    def __call__(self, number=None):
        return self.emit() if number is None else self.emit_many(number)


class BareProbe(RandomMixin, Bare, Logs):
    def __init__(self, conf, rng_seed=None):
        self.conf = conf
        super().__init__(rng_seed=rng_seed)

    draw, emit, emit_many = Probe.draw, Probe.emit, Probe.emit_many


class BareKids(RandomWithChildrenMixin, Bare, Logs):
    def __init__(self, children, rng_seed=None):
        super().__init__(children=children, rng_seed=rng_seed)

    emit, emit_many = Kids.emit, Kids.emit_many


class OwnBase(Emitter, Logs):
    """A base class of a user's own, with a part that the mixins ignore."""

    def __init__(self, own):
        self.own = own

    def reset(self):
        if hasattr(self, 'rng_seed') and hasattr(self.own, 'rng_seed'):
            self.own.rng_seed = self.rng_seed
        self.own.reset()

    def seed(self, rng_seed):
        if hasattr(self.own, 'seed'):
            self.own.seed(rng_seed)

    def emit(self):
        vals = []
        if hasattr(self, 'rng'):
            v = self.rng.random()
            self.note(-1, [drawn(v)])
            vals.append(v)
        vals.append(self.own())
        if hasattr(self, 'emitters'):
            vals += [e() for e in self.emitters.values()]
        return ';'.join(str(v) for v in vals)

    def emit_many(self, number):
        return [self.emit() for _ in range(number)]


class MixRandom(RandomMixin, OwnBase):
    pass


class MixItems(ItemsMixin, RandomMixin, OwnBase):
    pass


class MixAll(RandomWithChildrenMixin, ItemsMixin, OwnBase):
    pass


class MixKids(ChildrenMixin, OwnBase):
    """Nothing in it is random."""


MIXES = {'random': MixRandom, 'items': MixItems, 'all': MixAll,
         'kids': MixKids}
PROPS = {'length': 'length_emitter', 'alphabet': 'alphabet_emitter',
         'numwords': 'numwords_emitter', 'word': 'word_emitter',
         'sep': 'sep_emitter', 'emitter': 'emitter',
         'repeat': 'repeat_emitter', 'gate': 'gate_emitter'}


class Plain(Logs):
    """Something like an emitter, with nothing but values."""

    def __init__(self, items):
        self.vals, self.at = items, 0

    def __call__(self, number=None):
        n = 1 if number is None else number
        out = [self.vals[(self.at + i) % len(self.vals)] for i in range(n)]
        self.at += n
        self.note(-1 if number is None else n, [tok(v) for v in out])
        return out[0] if number is None else out


def tok(v):
    return f'{type(v).__name__}:{v!r}'


def falsy(em):
    """Makes an emitter false (where a truth value is asked for)."""
    base = type(em)

    class Falsy(base):
        def __len__(self):
            return 0

    Falsy.__name__ = base.__name__
    em.__class__ = Falsy
    return em


def logging(em):
    """Makes an emitter of the library log what it gives."""
    base = type(em)

    class Logged(base, Logs):
        depth = 0

        def emit(self):
            self.depth += 1
            try:
                v = super().emit()
            finally:
                self.depth -= 1
            if not self.depth:
                self.note(-1, [tok(v)])
            return v

        def emit_many(self, number):
            self.depth += 1
            try:
                vs = super().emit_many(number)
            finally:
                self.depth -= 1
            if not self.depth:
                self.note(number, [tok(v) for v in vs])
            return vs

    Logged.__name__ = base.__name__
    em.__class__ = Logged
    return em


def conf_of(r):
    return r['k'] + ' ' + hashlib.sha256(
        json.dumps(r, sort_keys=True).encode()).hexdigest()[:8]


class TreeDriver:
    spec = 'Tree'

    def __init__(self, cfg):
        self.objs = []             # by number of node
        self.recipes = []
        self.desc = []
        self.wholes = {}           # name of a field -> node
        self.schema = None

    # ------------------------------------------------------------ making

    def make(self, r, seed):
        """Builds an emitter or field; the recipes are kept by id."""
        k = r['k']

        def sub(x):
            return self.make(x, x_seed(x))

        def x_seed(x):
            return dec(x['seed']) if 'seed' in x else None
        if k == 'probe':
            em = (BareProbe if r.get('bare') else Probe)(r['conf'], seed)
        elif k == 'only':
            em = Only(r['conf'], seed)
        elif k == 'plain':
            em = Plain([dec(t) for t in r['items']])
        elif k == 'mix':
            kw = {}
            if 'of' in r:
                kw['children'] = {n: sub(x) for n, x in r['of'].items()}
            if 'items' in r:
                kw['items'] = [dec(t) for t in r['items']]
            if r['base'] != 'kids' and (seed is not None or r['say']):
                kw['rng_seed'] = seed
            own = sub(r['own'])
            em = MIXES[r['base']](own, **kw)
        elif k in ('static', 'seq', 'iter', 'choice', 'chance', 'stub'):
            em = logging(trees.build(r, seed))
        elif k == 'kids':
            em = (BareKids if r.get('bare') else Kids)(
                {n: sub(x) for n, x in r['of'].items()}, seed)
        elif k == 'word':
            em = Word(sub(r['length']), sub(r['alphabet']), rng_seed=seed)
        elif k == 'text':
            em = Text(sub(r['num']), sub(r['word']),
                      sub(r['sep']) if r.get('sep') else None, rng_seed=seed)
        elif k in ('wrap1', 'wrapn'):
            cell = []

            def note(rng):
                v = rng.random()
                if cell:
                    LOG.append({'node': self.number(cell[0]), 'n': -1,
                                'vals': [drawn(v)]})
                return v
            if k == 'wrap1':
                em = WrapOne(sub(r['src']),
                             (lambda v, rng: f'{v}{note(rng)}') if r['rng']
                             else (lambda v: f'<{v}>'), rng_seed=seed)
            else:
                em = WrapMany({n: sub(x) for n, x in r['of'].items()},
                              (lambda rng, **kw: f'{kw}{note(rng)}')
                              if r['rng'] else (lambda **kw: f'{kw}'),
                              rng_seed=seed)
            cell.append(em)
        elif k == 'based':
            cell = []

            def note(rng):
                v = rng.random()
                if cell:
                    LOG.append({'node': self.number(cell[0]), 'n': -1,
                                'vals': [drawn(v)]})
                return v
            fs = [self.objs[self.wholes[n] - 1] for n in r['of']]
            em = BasedOnFields(
                fs if len(fs) > 1 else fs[0],
                (lambda v, rng: f'{v}{note(rng)}') if len(fs) == 1 else
                (lambda rng, **kw: f'{kw}{note(rng)}'), rng_seed=seed)
            cell.append(em)
        elif k == 'copy':
            fs = [self.objs[self.wholes[n] - 1] for n in r['of']]
            em = CopyFields(fs if len(fs) > 1 else fs[0])
        elif k == 'field':
            em = Field(r['name'], sub(r['em']),
                       sub(r['rep']) if r.get('rep') else None,
                       sub(r['gate']) if r.get('gate') else None,
                       r.get('hide', False), rng_seed=seed)
        else:
            raise ValueError(k)
        self.by_id[id(em)] = (em, r)
        return falsy(em) if r.get('falsy') else em

    def number(self, em):
        for i, o in enumerate(self.objs):
            if o is em:
                return i + 1
        return 0

    def add(self, em, parent, name=''):
        """Adds an object and its parts as nodes; returns descriptions."""
        r = self.by_id.get(id(em), (None, None))[1]
        if r is None:
            # A default that the library made.
            assert type(em) is Static, em
            r = {'k': 'static', 'v': tok(em.items[0])}
            logging(em)
        k = r['k']
        kind = {'probe': 'probe', 'plain': 'plain', 'static': 'fixed',
                'seq': 'fixed', 'iter': 'fixed', 'choice': 'choice',
                'stub': 'fixed', 'chance': 'choice',
                'only': 'only', 'copy': 'none'}.get(k, 'comp')
        if k == 'mix' and r['base'] == 'kids':
            kind = 'none'
        items = []
        if kind in ('fixed', 'plain'):
            items = [tok(dec(t)) for t in
                     ([r['v']] if k == 'static' else r['items'])]
        if k == 'mix':
            items = [tok(dec(t)) for t in r.get('items', [])]
        self.objs.append(em)
        self.recipes.append(r)
        n = len(self.objs)
        if isinstance(em, Logs):
            em.num = n
        out = [{'parent': parent, 'name': name, 'kind': kind, 'items': items,
                'pos': em.at % len(em.vals) if kind == 'plain' else 0,
                'conf': conf_of(r) if kind == 'choice' else k}]
        if hasattr(em, 'emitters'):
            for key, x in em.emitters.items():
                out += self.add(x, n, key)
        if hasattr(em, 'own'):
            out += self.add(em.own, n, 'own')
        return out

    def read(self, ev, em):
        """Reads the parts of a whole, in every way."""
        def node(key, x):
            return {'name': key, 'node': self.number(x)}
        if hasattr(em, 'emitters'):
            ev['parts'] = [node(*x) for x in em.emitters.items()]
        if hasattr(em, 'own'):
            ev['parts'].append(node('own', em.own))
        ev['props'] = [node(key, getattr(em, PROPS[key]))
                       for key in getattr(em, 'emitters', {})
                       if hasattr(type(em), PROPS.get(key, '-'))]
        if isinstance(em, ItemsMixin) and isinstance(em, OwnBase):
            ev['hasitems'] = True
            ev['items'] = [tok(v) for v in em.items]

    # ---------------------------------------------------------- observing

    def attrs(self):
        return [seed_tok(o.rng_seed) if hasattr(o, 'rng_seed') else '-'
                for o in self.objs]

    def ctx(self, ids):
        """Previous values of sources that are not called before."""
        out, called = [], set()
        for i in ids:
            em = getattr(self.objs[i - 1], 'emitter', self.objs[i - 1])
            for f in getattr(em, 'source', []):
                if id(f) not in called:
                    out.append(repr(f.previous))
            called.add(id(self.objs[i - 1]))
        return cut('|'.join(out))

    def apply(self, op):
        k = op['op']
        ids = list(op.get('ids', []))
        ev = {'op': k, 'ids': ids, 'n': op.get('n', 0), 'nodes': [],
              'v': 'None' if op.get('v') in (None, NONE) else op['v'],
              'how': op.get('how', ''), 'draws': [], 'out': '', 'ctx': '',
              'err': '', 'attrs': [], 'parts': [], 'props': [],
              'items': [], 'hasitems': False}
        v = dec(op['v']) if op.get('v') else None
        objs = [self.objs[i - 1] for i in ids]
        LOG.clear()
        if k in ('new', 'replace', 'twin'):
            self.by_id = {}
        if k == 'new':
            em, ev['err'] = attempt(self.make, op['recipe'], v)
            first = len(self.objs) + 1
            ev['nodes'] = self.add(em, 0)
            if op['recipe']['k'] == 'field':
                self.wholes[op['recipe']['name']] = first
        elif k == 'schema':
            self.schema, ev['err'] = attempt(Schema, *objs)
        elif k == 'replace':
            old = self.objs[op['n'] - 1]
            par = next(i + 1 for i, o in enumerate(self.objs)
                       if any(x is old for x in
                              getattr(o, 'emitters', {}).values()))
            ems = self.objs[par - 1].emitters
            key = next(n for n, x in ems.items() if x is old)
            em = self.make(op['recipe'], v)
            if isinstance(self.objs[par - 1], Field) and op['prop']:
                name = {'emitter': 'emitter', 'repeat': 'repeat_emitter',
                        'gate': 'gate_emitter'}[key]
                _, ev['err'] = attempt(setattr, self.objs[par - 1], name, em)
            else:
                _, ev['err'] = attempt(ems.__setitem__, key, em)
            ev['nodes'] = self.add(em, par)
        elif k in ('seed', 'reset'):
            how = op.get('how', '')
            if how == 'schema':
                fn = self.schema.seed_fields if k == 'seed' else \
                    self.schema.reset_fields
            elif how == 'source':
                src = self.objs[op['n'] - 1]
                fn = src.seed_source if k == 'seed' else src.reset_source
            else:
                fn = getattr(objs[0], k)
            _, ev['err'] = attempt(fn, *([v] if k == 'seed' else []))
        elif k == 'set_attr':
            _, ev['err'] = attempt(setattr, objs[0], 'rng_seed', v)
        elif k == 'parts':
            _, ev['err'] = attempt(self.read, ev, objs[0])
        elif k == 'call':
            ev['ctx'] = self.ctx(ids)
            if ev['how'] == 'doc':
                out, ev['err'] = attempt(self.schema)
            elif ev['how'] == 'many':
                out, ev['err'] = attempt(objs[0], op['n'])
            elif ev['how'] == 'emit_many':
                out, ev['err'] = attempt(objs[0].emit_many, op['n'])
            elif ev['how'] == 'emit':
                out, ev['err'] = attempt(objs[0].emit)
            else:
                out, ev['err'] = attempt(objs[0])
            ev['out'] = cut(repr(out))
            ev['how'] = {'emit': 'one', 'emit_many': 'many'}.get(
                ev['how'], ev['how'])
            ev['draws'] = list(LOG)
        elif k == 'twin':
            em, ev['err'] = attempt(self.make, self.recipes[op['n'] - 1], v)
            ev['nodes'] = self.add(em, 0)
            LOG.clear()
            for n in op['calls']:
                attempt(em) if n < 0 else attempt(em, n)
            ev['draws'] = list(LOG)
        LOG.clear()
        ev['attrs'] = self.attrs()
        return ev


# ---------------------------------------------------------------- suites

def r_probe(rng, conf):
    r = {'k': 'probe', 'conf': conf}
    if rng.random() < 0.2:
        r['seed'] = rng.choice(SEEDS)
    if rng.random() < 0.15:
        r['bare'] = True
    return r


def r_leaf(rng, conf, plain=False):
    k = rng.random()
    if conf == 'int':
        vals = [f'int:{rng.randrange(4)}' for _ in range(rng.randrange(1, 5))]
    elif conf == 'bool':
        vals = [rng.choice(['bool:True', 'bool:True', 'bool:False'])
                for _ in range(rng.randrange(1, 5))]
    else:
        vals = [rng.choice('abcdefgh') for _ in range(rng.randrange(1, 6))]
    if k < 0.45:
        return r_probe(rng, conf)
    if k < 0.7:
        if conf == 'bool' and rng.random() < 0.7:
            r = {'k': 'chance', 'p': rng.choice([0.3, 0.7])}
        elif conf == 'str' and rng.random() < 0.4:
            r = {'k': 'choice', 'n': 2500, 'mode': 'norep', 'as_str': True}
        else:
            r = trees.r_choice(rng, vals, 'rep')
        if rng.random() < 0.15:
            r['seed'] = rng.choice(SEEDS)
        return r
    if plain and k < 0.76:
        return {'k': 'plain', 'items': vals}
    if plain and k < 0.82:
        return {'k': 'only', 'conf': conf}
    if k < 0.85:
        return {'k': 'static', 'v': vals[0]}
    return {'k': rng.choice(['seq', 'iter']), 'items': vals}


def r_em(rng, depth):
    """A composite emitter, or a leaf of one; sometimes a false one."""
    r = r_em_(rng, depth)
    if rng.random() < 0.08:
        r['falsy'] = True
    return r


def r_root(rng, depth):
    r = r_em(rng, depth)
    if r.get('base') == 'kids':
        # It takes no seeds.
        return {'k': 'kids', 'of': {'a': r}}
    return r


def r_mix(rng, depth, seed):
    names = ['a', 'b', 'c'][:rng.randrange(1, 4)]
    base = rng.choice(['random', 'items', 'all', 'kids'])
    r = {'k': 'mix', 'base': base, 'say': rng.random() < 0.5,
         'own': {'k': 'stub', 'items': list('xyz')}, **seed}
    if base != 'kids' and rng.random() < 0.5:
        r['own'] = r_probe(rng, 'str')
    if base == 'all' and rng.random() < 0.8:
        r['of'] = {n: r_em(rng, depth - 1) for n in names}
    if base == 'kids' and rng.random() < 0.8:
        r['of'] = {n: {'k': rng.choice(['seq', 'iter', 'stub']),
                       'items': list('pq')} for n in names}
    if base in ('all', 'items') and rng.random() < 0.7:
        r['items'] = list('mno')[:rng.randrange(1, 4)]
    return r


def r_em_(rng, depth):
    k = rng.random()
    if depth == 0 or k < 0.1:
        return r_leaf(rng, 'str', plain=True)
    seed = {'seed': rng.choice(SEEDS)} if rng.random() < 0.1 else {}
    if k < 0.3:
        r = {'k': 'word', 'length': r_leaf(rng, 'int'),
             'alphabet': r_leaf(rng, 'str'), **seed}
        if rng.random() < 0.15:
            r[rng.choice(['length', 'alphabet'])]['falsy'] = True
        return r
    if k < 0.5:
        word = r_leaf(rng, 'str') if rng.random() < 0.5 else \
            {'k': 'word', 'length': r_leaf(rng, 'int'),
             'alphabet': r_leaf(rng, 'str')}
        return {'k': 'text', 'num': r_leaf(rng, 'int'), 'word': word,
                'sep': r_leaf(rng, 'str') if rng.random() < 0.6 else None,
                **seed}
    if k < 0.7:
        return {'k': 'wrap1', 'src': r_em(rng, depth - 1),
                'rng': rng.random() < 0.6, **seed}
    names = ['a', 'b', 'c'][:rng.randrange(1, 4)]
    if k < 0.8:
        return r_mix(rng, depth, seed)
    return {'k': 'wrapn' if k < 0.88 else 'kids',
            'bare': rng.random() < 0.3,
            'of': {n: r_em(rng, depth - 1) for n in names},
            'rng': rng.random() < 0.6, **seed}


def r_seed(rng, none=0.1):
    return NONE if rng.random() < none else rng.choice(SEEDS)


class Script:
    def __init__(self, rng):
        self.rng = rng
        self.t = Trace(TreeDriver, {})
        self.d = self.t.driver
        self.roots = []
        self.fields = []
        self.src = {}              # node of a field -> nodes of its sources
        self.gone = set()

    def do(self, **op):
        return self.t.do(op)

    def new(self, recipe):
        n = len(self.d.objs) + 1
        self.do(op='new', recipe=recipe, v=r_seed(self.rng, 0.3))
        self.roots.append(n)
        return n

    def field(self, of=None):
        rng = self.rng
        name = f'f{len(self.fields)}'
        if of:
            em = {'k': rng.choice(['based', 'based', 'copy']),
                  'of': [f'f{i}' for i in of]}
            if em['k'] == 'based' and rng.random() < 0.3:
                em['seed'] = rng.choice(SEEDS)
        else:
            em = r_em(rng, rng.choice([0, 1, 1, 2]))
        r = {'k': 'field', 'name': name, 'em': em,
             'hide': rng.random() < 0.2}
        if rng.random() < 0.5:
            r['rep'] = r_leaf(rng, 'int', True)
        if rng.random() < 0.5:
            r['gate'] = r_leaf(rng, 'bool', True)
        n = self.new(r)
        self.fields.append(n)
        self.src[n] = [self.fields[i] for i in of or []]
        return n

    def schema(self):
        rng = self.rng
        for _ in range(rng.randrange(1, 4)):
            self.field()
        if rng.random() < 0.6:
            of = sorted(rng.sample(range(len(self.fields)),
                                   rng.randrange(1, len(self.fields) + 1)))
            self.field(of)
        self.ids = list(self.fields)
        if rng.random() < 0.2 and len(self.ids) > 1:
            self.ids.remove(rng.choice(self.ids))
        self.do(op='schema', ids=self.ids)

    def top(self, n):
        p = self.parent(n)
        return n if not p else self.top(p)

    def parent(self, n):
        return self.parents()[n - 1]

    def parents(self):
        out = []
        for ev in self.t.evs:
            if ev['op'] == 'replace':
                out[ev['n'] - 1] = 0
            out += [x['parent'] for x in ev['nodes']]
        return out

    def kinds(self):
        return [x['kind'] for ev in self.t.evs for x in ev['nodes']]

    def conf(self, n):
        return self.d.recipes[n - 1]['k']

    def call(self, n=None):
        rng = self.rng
        if n is None and self.d.schema is not None and rng.random() < 0.6:
            return self.do(op='call', ids=self.ids, how='doc')
        if n is None:
            n = rng.choice(self.roots)
        if self.conf(n) == 'field':
            return self.do(op='call', ids=[n], how='one')
        how = pick_how(rng)
        if how in ('emit', 'emit_many') and self.conf(n) == 'plain':
            how = 'many'
        self.do(op='call', ids=[n], how=how, n=rng.choice([0, 1, 2, 3, 5])
                if 'many' in how else 1)

    def target(self):
        """What to seed or reset: ids and how."""
        rng = self.rng
        k = rng.random()
        kinds, pars = self.kinds(), self.parents()
        if self.d.schema is not None and k < 0.4:
            return {'ids': self.ids, 'how': 'schema'}
        if k < 0.75:
            return {'ids': [rng.choice(self.roots)], 'how': ''}
        ns = [i + 1 for i, x in enumerate(kinds)
              if x in ('comp', 'probe', 'choice')]
        if k < 0.85:
            b = [i + 1 for i in range(len(kinds))
                 if self.conf(i + 1) == 'based']
            if b:
                n = rng.choice(b)
                return {'ids': self.src[pars[n - 1]] if pars[n - 1] else [],
                        'how': 'source', 'n': n}
        return {'ids': [rng.choice(ns or self.roots)], 'how': ''}

    def seedable(self, ids):
        return all(hasattr(self.d.objs[i - 1], 'seed') for i in ids)

    def replace(self):
        rng = self.rng
        kinds, pars = self.kinds(), self.parents()
        ns = []
        for i, k in enumerate(kinds):
            if not pars[i] or k in ('comp', 'none'):
                continue
            par = self.conf(pars[i])
            if par in ('kids', 'wrap1', 'wrapn'):
                ns.append((i + 1, 'str'))
            elif par == 'field':
                ems = self.d.objs[pars[i] - 1].emitters
                key = next(n for n, x in ems.items()
                           if x is self.d.objs[i])
                ns.append((i + 1, {'emitter': 'str', 'repeat': 'int',
                                   'gate': 'bool'}[key]))
        if ns:
            n, conf = rng.choice(ns)
            self.do(op='replace', n=n, prop=rng.random() < 0.5,
                    recipe=r_leaf(rng, conf, True), v=r_seed(rng, 0.3))

    def steps(self, n):
        rng = self.rng
        for _ in range(n):
            k = rng.random()
            if k < 0.45:
                self.call()
            elif k < 0.62:
                tg = self.target()
                if self.seedable(tg['ids']):
                    self.do(op='seed', v=r_seed(rng), **tg)
            elif k < 0.78:
                tg = self.target()
                if all(hasattr(self.d.objs[i - 1], 'reset')
                       for i in tg['ids']):
                    self.do(op='reset', **tg)
            elif k < 0.88:
                ns = [i for i in range(1, len(self.d.objs) + 1)
                      if hasattr(self.d.objs[i - 1], 'rng_seed')]
                ns = [i for i in ns if i in self.roots] or ns \
                    if rng.random() < 0.5 else ns
                if ns:
                    self.do(op='set_attr', ids=[rng.choice(ns)],
                            v=r_seed(rng))
            elif k < 0.92:
                self.replace()
            elif k < 0.96:
                self.parts()
            else:
                ns = [i + 1 for i, x in enumerate(self.kinds())
                      if x != 'none']
                n = rng.choice(ns)
                if self.conf(n) not in ('based',):
                    self.call(n)
        self.finish()

    def wholes(self):
        return [i + 1 for i, o in enumerate(self.d.objs)
                if hasattr(o, 'emitters') or hasattr(o, 'own')]

    def all_parts(self):
        for n in self.wholes():
            self.do(op='parts', ids=[n])

    def parts(self):
        ns = self.wholes()
        if ns:
            self.do(op='parts', ids=[self.rng.choice(ns)])

    def finish(self):
        """Seeds or resets everything; then every part on its own."""
        rng = self.rng
        v = rng.choice(SEEDS)
        ids = self.roots
        how = {'ids': [ids[0]], 'how': ''}
        if self.d.schema is not None:
            ids = self.ids
            how = {'ids': ids, 'how': 'schema'}
        else:
            ids = [ids[0]]
        if not self.seedable(ids):
            return
        if rng.random() < 0.5 or \
                not all(hasattr(self.d.objs[i - 1], 'rng_seed') for i in ids):
            self.do(op='seed', v=v, **how)
        else:
            for i in ids:
                self.do(op='set_attr', ids=[i], v=v)
            self.do(op='reset', **how)
        if rng.random() < 0.5:
            self.call()
            self.do(op='reset', **how)
        kinds, pars = self.kinds(), self.parents()
        for m in range(1, len(kinds) + 1):
            if kinds[m - 1] in ('comp', 'none') or self.top(m) not in ids:
                continue
            n = rng.choice([-1, 1, 3])
            self.do(op='call', ids=[m], how='one' if n < 0 else 'many',
                    n=1 if n < 0 else n)
            if kinds[m - 1] in ('choice', 'probe'):
                self.do(op='twin', n=m, v=v, calls=[n])


def tree(rng, i, tier):
    s = Script(rng)
    if i % 2:
        s.schema()
    else:
        s.new(r_root(rng, rng.choice([1, 2, 2, 3])))
        if rng.random() < 0.3:
            s.new(r_root(rng, 1))
    s.steps(rng.randrange(3, 14))
    if rng.random() < 0.5:
        s.all_parts()
    return s.t


SUITES = {'tree': tree}


# ------------------------------------------------------------------ walks

def walk_setup(state, rng):
    p = {'k': 'probe', 'conf': 'str'}
    inner = {'k': 'kids', 'of': {
        'a': p, 'b': {'k': rng.choice(['seq', 'iter']), 'items': ['a', 'b']}}}
    return [{'op': 'new', 'v': 'a',
             'recipe': {'k': 'kids', 'of': {'a': p, 'b': inner}}},
            {'op': 'new', 'v': NONE, 'recipe': {'k': 'kids', 'of': {
                'a': p, 'b': {'k': 'plain', 'items': ['c', 'd']},
                'c': {'k': 'only', 'conf': 'str'}}}}]


def split(ev):
    op = {k: ev[k] for k in ('op', 'ids', 'v', 'how', 'n')}
    draws = [[d['node'], d['vals']] for d in ev['draws']]
    return (json.dumps(op, sort_keys=True),
            json.dumps([draws, ev['attrs'], ev['err'],
                        [[p['name'], p['node']] for p in ev['parts']]]), op)


def walk_op(op, rng):
    return dict(op, v=NONE if op['v'] == 'None' else op['v'])


WALKS = {'tree': {'driver': 'TreeDriver', 'setup': walk_setup, 'op': walk_op,
                  'split': split, 'length': 12}}
