"""Accesses deprecated names of real modules (spec/Deprec.tla)."""
import importlib
import os
import random
import subprocess
import sys
import typing
import warnings

from base import Trace, attempt, dec, enc

MODS = ['fauxdoc.emitters', 'fauxdoc.emitters.wrappers', 'fauxdoc.typing']
OTHERS = ['fauxdoc', 'fauxdoc.emitters.choice', 'fauxdoc.emitters.fixed',
          'fauxdoc.profile', 'fauxdoc.mixins', 'fauxdoc.emitter']
OLD = {'fauxdoc.emitters': ['Wrap'], 'fauxdoc.emitters.wrappers': ['Wrap'],
       'fauxdoc.typing': ['Number', 'EmitterLikeCallable', 'StrEmitterLike',
                          'IntEmitterLike', 'BoolEmitterLike']}
NAMES = ['Wrap', 'Number', 'EmitterLikeCallable', 'StrEmitterLike',
         'IntEmitterLike', 'BoolEmitterLike', 'WrapOne', 'WrapMany', 'Choice',
         'Static', 'Sequential', 'Iterative', 'chance', 'BoundWrapper',
         'EmitterLike', 'FieldLike', 'ImplementsRNG', 'RandomEmitterLike',
         'FieldReturn', 'T', 'OrderedDict', 'UserList', 'wrap', 'WrapTwo',
         'Numbers', 'StrEmitter', 'emitterlikecallable', '__nope__',
         'Word', 'Text', 'CopyFields', 'BasedOnFields', 'make_alphabet',
         'poisson_choice', 'gaussian_choice', 'dtrange', 'profile', 'typing',
         'fixed', 'wrappers', 'text', 'FloatEmitterLike']
ORDINARY = {}


def use_emitters():
    from fauxdoc import emitters as e
    for em in (e.Choice('abc', [1, 2, 3]), e.chance(0.5), e.Static(1),
               e.poisson_choice('abc', mu=2), e.gaussian_choice('abc'),
               e.Iterative(lambda: iter('abc')), e.Sequential('abc'),
               e.Word(e.Static(2), e.Sequential('ab')),
               e.Text(e.Static(2), e.Sequential(['x', 'y'])),
               e.WrapOne(e.Static('q'), str.upper),
               e.WrapMany({'a': e.Static(1)}, lambda a: a)):
        em()
        em(3)
        em.reset()
        em.num_unique_values, em.emits_unique_values


def use_settings():
    from fauxdoc import emitters as e
    c = e.Choice('abcd', replace=False)
    c(2)
    c.replace = True
    c.weights = [1, 2, 3, 4]
    c.seed(5)
    s = e.Sequential('abc')
    s.items, next(s.iterator)
    s.iterator_factory()
    s.reset_after_call = True
    s(5)
    i = e.Iterative(lambda: iter('ab'))
    i.iterator_factory = lambda: iter('xyz')
    i(4)
    st = e.Static(3)
    st.value = 4
    w = e.WrapOne(st, lambda v, rng: v)
    w.wrapper.function = lambda v: v
    w.seed(3)


def use_profile():
    from fauxdoc import profile as p
    from fauxdoc import emitters as e
    a = p.Field('a', e.Sequential('abc'), e.Static(2), e.chance(0.5))
    b = p.Field('b', e.CopyFields(a, ' '), hide=True)
    c = p.Field('c', e.BasedOnFields(a, lambda v: v))
    s = p.Schema(a, b, c)
    s.seed_fields(3)
    s()
    s.reset_fields()
    s()
    s.add_fields(p.Field('d', e.Static(1)))
    s()


def use_ranges():
    import datetime
    from fauxdoc import dtrange as d
    r = d.dtrange('2016-01-01', '2016-02-01', 2)
    list(r[::2]) == list(r)[::2]
    datetime.date(2016, 1, 3) in r
    t = d.dtrange('12:00', '11:00', 30, 'minutes')
    len(t), hash(t), t.index(t[3])


def use_groups():
    from fauxdoc.group import ObjectGroup, ObjectMap
    g = ObjectGroup(1, None)
    g.do_method('bit_length')
    ObjectMap({'a': 1}).setattr('x', 2)


def use_alphabet():
    from fauxdoc.emitters import make_alphabet
    make_alphabet([(97, 99)])


def use_hints():
    from fauxdoc import typing as t
    t.EmitterLike[str], t.FieldLike[int]
    from fauxdoc import mathtools as m
    m.clamp(m.poisson(3, 2) + m.gaussian(1), 0, 1)
    m.weighted_shuffle('abc', [1, 2, 3])


USES = {'emitters': use_emitters, 'settings': use_settings,
        'profile': use_profile, 'ranges': use_ranges, 'groups': use_groups,
        'alphabet': use_alphabet, 'hints': use_hints}
FRESH = ['import fauxdoc', 'import fauxdoc.typing', 'import fauxdoc.emitters',
         'from fauxdoc import profile, emitters, dtrange, group, mixins',
         'from fauxdoc.emitters import Choice, WrapOne',
         'import fauxdoc.emitters.wrappers', 'import fauxdoc.warn',
         'from fauxdoc import *', 'from fauxdoc.typing import EmitterLike']


class DeprecDriver:
    spec = 'Deprec'

    def __init__(self, cfg):
        self.first = {}
        self.em = None

    def token(self, mod, name, v):
        """What an object is."""
        t = importlib.import_module('fauxdoc.typing')
        known = [('float', float), ('EmitterLike[str]', t.EmitterLike[str]),
                 ('EmitterLike[int]', t.EmitterLike[int]),
                 ('EmitterLike[bool]', t.EmitterLike[bool]),
                 ('EmitterLike or callable',
                  typing.Union[typing.Callable[[int], typing.Sequence[t.T]],
                               t.EmitterLike[t.T]])]
        for k, x in known:
            if v is x or (v == x and type(v) is type(x)):
                return k
        if isinstance(v, type) and v.__name__ == 'Wrap':
            e = importlib.import_module('fauxdoc.emitter')
            if not issubclass(v, e.Emitter):
                return 'a class'
            if self.first.setdefault('Wrap', v) is not v:
                return 'another class'
            return 'Wrap'
        return enc(v)[:60]

    def apply(self, op):
        ev = {'op': op['op'], 'mod': op.get('mod', ''),
              'name': op.get('name', ''), 'way': op.get('way', ''),
              'n': op.get('n', 0), 'a': op.get('a', []), 'b': op.get('b', []),
              'good': op.get('good', True), 'out': [],
              'mangled': op.get('mangled', False), 'err': '',
              'obj': '', 'seeded': True}
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter('always')
            _, ev['err'] = attempt(self.run, op, ev)
        dep = [w for w in log if issubclass(w.category, DeprecationWarning)]
        naming = [w for w in dep if ev['name'] and op['op'] not in ('use', 'fresh')
                  and ev['name'] in str(w.message)]
        ev['warned'] = len(naming)
        ev['other'] = len(dep) - len(naming)
        return ev

    def run(self, op, ev):
        kind = op['op']
        if kind == 'access':
            mod, name, way = op['mod'], op['name'], op['way']
            if way == 'get':
                v = getattr(importlib.import_module(mod), name)
            elif way == 'has':
                if not hasattr(importlib.import_module(mod), name):
                    raise AttributeError(name)
                return
            else:
                ns = {}
                exec(f'from {mod} import {name}', ns)
                v = ns[name]
            if name in OLD.get(mod, []):
                ev['obj'] = self.token(mod, name, v)
        elif kind == 'dir':
            ev['out'] = [str(n) for n in dir(importlib.import_module(
                op['mod']))]
        elif kind == 'use':
            USES[op['name']]()
        elif kind == 'fresh':
            src = sys.path[0:1] + [p for p in sys.path if p.endswith('/src')]
            env = dict(os.environ, PYTHONPATH=os.pathsep.join(src[1:]))
            p = subprocess.run(
                [sys.executable, '-W', 'error::DeprecationWarning', '-c',
                 op['name']], env=env, stderr=subprocess.PIPE,
                stdout=subprocess.DEVNULL, cwd='/', timeout=30)
            if b'DeprecationWarning' in p.stderr:
                warnings.warn(p.stderr[-300:].decode(), DeprecationWarning)
        elif kind == 'direct':
            warn = importlib.import_module('fauxdoc.warn')
            thing = object()
            table = {'Old': (op.get('repl'), thing), 'Older': (None, 5)}
            if op['good']:
                v = warn.get_deprecated_attr(op['name'], 'some.module',
                                             'module', table)
                want = table[op['name']][1]
                ev['obj'] = 'itself' if v is want else enc(v)
            else:
                warn.get_deprecated_attr(op['name'], 'some.module', 'module',
                                         table)
        elif kind == 'wrap_new':
            self.em = self.make_wrap(op)
            if op.get('seed') is not None:
                vals = []
                for em in (self.em, self.em.emitters['c']):
                    vals.append(em.rng.random())
                    em.reset()
                ev['seeded'] = vals == [random.Random(op['seed']).random()
                                        for _ in vals]
            del self.em.emitters['c']
        elif kind == 'wrap_call':
            if op.get('single'):
                ev['out'] = [self.em()]
            else:
                ev['out'] = list(self.em(op['n']))
        elif kind == 'wrap_reset':
            if op.get('seed'):
                self.em.seed(7)
                self.em.reset()
            else:
                self.em.reset()

    def make_wrap(self, op):
        from fauxdoc.emitters import Choice, Sequential
        mod = importlib.import_module(op['mod'])

        class Old(mod.Wrap):
            def emit(self):
                return self.wrapper(*[e() for e in self.emitters.values()])

            def emit_many(self, number):
                data = [e(number) for e in self.emitters.values()]
                return [self.wrapper(*args) for args in zip(*data)]

        src = {'c': Choice([1, 2]), 'a': Sequential([dec(t) for t in op['a']]),
               'b': Sequential([dec(t) for t in op['b']])}
        made = []

        def own(rng):
            return '' if rng is made[0].rng else '!'
        fn = 5
        if op['good']:
            fn = (lambda a, b, rng: f'{a}-{b}' + own(rng)) \
                if op.get('rng') else (lambda a, b: f'{a}-{b}')
        made.append(Old(src, fn, rng_seed=op.get('seed')))
        return made[0]


# ---------------------------------------------------------------- scripts

def mangled(rng, name):
    """A name that is almost another name."""
    i = rng.randrange(len(name))
    return rng.choice([
        name + '_', f'__{name}__', f'_{name}_', name.upper() + '_',
        name.swapcase(), name[0].lower() + name[1:] + '_s', ' ' + name,
        name + ' ', name[:-1], name + name[-1], name + '2', f'.{name}',
        name[:i] + '_' + name[i:] if i else name + '__',
        name[:i] + name[i].swapcase() + name[i + 1:]])


def deprec(rng, i, tier):
    t = Trace(DeprecDriver, {})
    for _ in range(rng.randrange(6, 25)):
        k = rng.random()
        mod = rng.choice(MODS * 3 + OTHERS)
        if k < 0.5 and mod in MODS:
            name = rng.choice(OLD[mod])
        else:
            name = rng.choice(NAMES)
        if k < 0.8:
            op = {'op': 'access', 'mod': mod, 'name': name,
                  'way': rng.choice(['get', 'get', 'has', 'from'])}
            if rng.random() < 0.2 and mod in MODS:
                op.update(name=mangled(rng, rng.choice(OLD[mod])),
                          way=rng.choice(['get', 'has']), mangled=True)
        elif k < 0.86:
            op = {'op': 'dir', 'mod': rng.choice(MODS)}
        elif k < 0.94:
            op = {'op': 'use', 'name': rng.choice(sorted(USES))}
        else:
            op = {'op': 'direct',
                  'name': rng.choice(['Old', 'Older', 'New', 'old', '']),
                  'repl': rng.choice([None, 'New', 'A or B'])}
            if rng.random() < 0.5:
                op['name'] = rng.choice([
                    mangled(rng, 'Old'), '_Old', '__Old', 'OLD', 'old', 'Ol',
                    'Oldest', 'The.Old', 'module.Old', 'Old.Older'])
            op['good'] = op['name'] in ('Old', 'Older')
        t.do(op)
    return t


def old_wrap(rng, i, tier):
    t = Trace(DeprecDriver, {})

    def items():
        return [rng.choice('abcde') for _ in range(rng.randrange(1, 5))]
    while t.driver.em is None:
        t.do({'op': 'wrap_new', 'mod': rng.choice(MODS[:2]), 'name': 'Wrap',
              'a': items(), 'b': items(), 'good': rng.random() < 0.8,
              'rng': rng.random() < 0.5, 'seed': rng.choice([None, 3])})
        if len(t.evs) > 4:
            return t
    for _ in range(rng.randrange(2, 9)):
        n = rng.randrange(0, 7)
        single = rng.random() < 0.4
        t.do(rng.choice([
            {'op': 'wrap_call', 'n': 1 if single else n, 'single': single},
            {'op': 'wrap_call', 'n': 1 if single else n, 'single': single},
            {'op': 'wrap_reset', 'seed': rng.random() < 0.5}]))
    return t


def fresh(rng, i, tier):
    t = Trace(DeprecDriver, {})
    t.do({'op': 'fresh', 'name': FRESH[i % len(FRESH)]})
    return t


SUITES = {'deprec': deprec, 'deprec_fresh': fresh,
          'deprec_wrap': old_wrap}
WALKS = {'deprec': {'driver': 'DeprecDriver', 'length': 2,
                    'outputs': ('err', 'warned', 'other', 'obj', 'out')}}
