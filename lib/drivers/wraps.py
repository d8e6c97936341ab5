"""Drives real WrapOne and WrapMany emitters (spec/Wrap.tla)."""
import functools
import inspect

import trees
from base import (BIG, Trace, attempt, call_emitter, dec, enc, geti, pick_how,
                  scribble)

from fauxdoc.emitters import Choice, WrapMany, WrapOne
from fauxdoc.emitters.wrappers import BoundWrapper

BUILTINS = {'str': str, 'int': int, 'bool': bool, 'repr': repr, 'max': max,
            'dict': dict, 'type': type, 'iter': iter, 'ascii': ascii,
            'next': next, 'getattr': getattr, 'callable': callable,
            'float': float, 'len': len, 'ord': ord, 'abs': abs,
            'tuple': tuple, 'list': list, 'range': range, 'bytes': bytes}
ERRORS = {c.__name__: c for c in (
    TypeError, ValueError, KeyError, IndexError, LookupError, AttributeError,
    ZeroDivisionError, RuntimeError, NotImplementedError, OSError,
    ArithmeticError, AssertionError)}
KINDS = {inspect.Parameter.POSITIONAL_ONLY: 'po',
         inspect.Parameter.POSITIONAL_OR_KEYWORD: 'pk',
         inspect.Parameter.KEYWORD_ONLY: 'ko',
         inspect.Parameter.VAR_POSITIONAL: 'va',
         inspect.Parameter.VAR_KEYWORD: 'vk'}
RESULTS = {'none': None, 'zero': 0, 'empty': '', 'list': [], 'false': False}


def params(fn):
    """The parameters of a function, or None."""
    try:
        sig = inspect.signature(fn)
    except ValueError:
        return None
    return [{'n': p.name, 'k': KINDS[p.kind],
             'd': p.default is not inspect.Parameter.empty}
            for p in sig.parameters.values()]


def source_of(ps):
    """A parameter list in Python."""
    out, po, star = [], False, False
    for p in ps:
        if po and p['k'] != 'po':
            out.append('/')
            po = False
        if p['k'] == 'po':
            po = True
        if p['k'] == 'ko' and not star:
            out.append('*')
            star = True
        if p['k'] == 'va':
            star = True
        out.append({'va': '*', 'vk': '**'}.get(p['k'], '') + p['n']
                   + ('="default"' if p['d'] else ''))
    if po:
        out.append('/')
    return ', '.join(out)


MISSING = object()


def read_args(ps, vals, one, names):
    """What a function with these parameters was called with.

    Returns the arguments (by name, then any others) and the generator."""
    rng = 'none'
    given = {}
    extra = []
    for p in ps:
        v = vals[p['n']]
        if p['k'] == 'va':
            if one and not given and v:
                given[names[0]] = v[0]
                v = v[1:]
            extra.extend(v)
        elif p['k'] == 'vk':
            for k, x in v.items():
                if k == 'rng':
                    rng = 'unwanted'
                elif k in names and not one:
                    given[k] = x
                else:
                    extra.append(x)
        elif p['n'] == 'rng':
            rng = v
        elif one:
            if p is ps[0]:
                given[names[0]] = v
            elif v != 'default':
                extra.append(v)
        elif p['n'] in names:
            given[p['n']] = v
        elif v != 'default':
            extra.append(v)
    return [given.get(n, MISSING) for n in names] + extra, rng


def whose(rng, em, other):
    if isinstance(rng, str):
        return 'none' if rng == 'default' else rng
    return 'own' if rng is em.rng else 'other' if rng is other.rng \
        else 'alien'


class WrapDriver:
    spec = 'Wrap'

    def __init__(self, cfg):
        self.em = None
        self.kind = 'none'
        self.names = []
        self.parts = []
        self.calls = []
        self.count = 0
        self.other = Choice(['p', 'q', 'r'], rng_seed=99)
        self.fn = None
        self.builtin = None

    # -------------------------------------------------------- functions

    def make(self, f):
        """A function that notes its calls."""
        if f['via'] == 'builtin':
            return BUILTINS[f['id']]
        ps = f['params']
        names = [p['n'] for p in ps]
        body = f"lambda {source_of(ps)}: _log(dict({', '.join(f'{n}={n}' for n in names)}))"

        def log(vals):
            return self.log_call(f, ps, vals)
        fn = eval(body, {'_log': log, 'dict': dict})      # our own text
        if f['via'] == 'object':
            class Callable:
                def __call__(self, *args, **kwargs):
                    return fn(*args, **kwargs)
            obj = Callable()
            obj.__signature__ = inspect.signature(fn)
            return obj
        if f['via'] == 'partial':
            return functools.partial(fn)
        if f['via'] == 'wraps':
            @functools.wraps(fn)
            def outer(*args, **kwargs):
                return fn(*args, **kwargs)
            return outer
        return fn

    def log_call(self, f, ps, vals):
        f['used'] = f.get('used', 0) + 1
        names = ['source'] if self.kind == 'one' else self.names
        args, rng = read_args(ps, vals, self.kind == 'one', names)
        rng = whose(rng, self.em, self.other)
        args = [enc(v) if v is not MISSING else '!missing' for v in args]
        self.count += 1
        res = f"{f['id']}{self.count}"
        if f.get('res') == 'args':
            res = f"{f['id']}({''.join(args)})"
        elif f.get('res') in RESULTS:
            res = RESULTS[f['res']]
        elif f.get('res') == 'draw' and rng == 'own':
            res = (vals['rng'].random(), self.count)
        fails = f['used'] in f.get('fails', ())
        self.calls.append({'fn': f['id'], 'args': args, 'rng': rng,
                           'res': '' if fails else enc(res),
                           'err': f['error'] if fails else ''})
        if fails:
            raise ERRORS[f['error']]('as it should')
        return res

    def fits(self, fn, firsts):
        """Whether a function (without signature) takes the values."""
        try:
            if self.kind == 'one':
                fn(firsts[0])
            else:
                fn(**dict(zip(self.names, firsts)))
        except Exception:                                 # noqa
            return False
        return True

    # ----------------------------------------------------------- events

    def obs(self, op):
        if self.em is None or not op.get('look'):
            return {'on': False}
        nuv, err = attempt(lambda: self.em.num_unique_values)
        return {'on': True,
                'nuv': -2 if err else -1 if nuv is None else geti(nuv),
                'euv': self.em.emits_unique_values is not False}

    def apply(self, op):
        kind = op['op']
        ev = {'op': kind, 'kind': op.get('kind', ''), 'names': [],
              'items': [], 'how': op.get('how', ''), 'n': op.get('n', 0),
              'out': [], 'shape': '', 'err': '', 'fn': '', 'sig': True,
              'ok': True, 'params': [], 'bound': op.get('bound', ''),
              'logged': True, 'via': '', 'taken': [], 'calls': [],
              'mapped': [], 'kept': True, 'raised': ''}
        self.calls = []
        if 'fn' in op:
            op['fn'].pop('used', None)
        getattr(self, 'do_' + kind)(op, ev)
        ev['calls'] = self.calls
        for em in self.parts:
            trees.taken(em)
        ev['obs'] = self.obs(op)
        return ev

    def describe(self, f, ev):
        fn = self.make(f)
        ps = params(fn)
        ev.update(fn=f['id'], params=ps or [], sig=ps is not None,
                  logged=f['via'] != 'builtin', via=f['via'])
        if ps is None:
            ev['ok'] = self.fits(fn, self.firsts)
        return fn

    def do_new(self, op, ev):
        rs = op['sources']
        self.kind, self.names = op['kind'], list(rs)
        ems = {n: trees.recorded(trees.build(r)) for n, r in rs.items()}
        self.parts = list(ems.values())
        ev['names'] = self.names
        ev['items'] = [[r['v']] if r['k'] == 'static' else r['items']
                       for r in rs.values()]
        self.firsts = [dec(i[0]) for i in ev['items']]
        fn = self.describe(op['fn'], ev)
        given = fn
        if op.get('bound_fn'):
            given = BoundWrapper(fn, self.other)
        kw = {'rng_seed': op['seed']} if op.get('seed') is not None else {}
        if op['kind'] == 'one':
            em, ev['err'] = attempt(WrapOne, ems[self.names[0]], given, **kw)
        else:
            em, ev['err'] = attempt(WrapMany, ems, given, **kw)
        if not ev['err']:
            self.em = em
            self.fn = fn
            self.builtin = None if ev['logged'] else fn

    def do_set_fn(self, op, ev):
        f = op['fn']
        fn = self.describe(f, ev)
        before = (self.em.wrapper, self.em.wrapper.function,
                  self.em.wrapper.bound_to)
        how = op['how_set']
        ev['bound'] = 'own'
        if how == 'method':
            _, ev['err'] = attempt(self.em.set_wrapper_function, fn)
        elif how == 'rewrap':
            _, ev['err'] = attempt(self.em.set_wrapper_function,
                                   BoundWrapper(fn, self.other))
        elif how == 'wrapper':
            _, ev['err'] = attempt(setattr, self.em, 'wrapper',
                                   BoundWrapper(fn, self.em))
        else:
            ev['bound'] = 'other'
            _, ev['err'] = attempt(setattr, self.em, 'wrapper',
                                   BoundWrapper(fn, self.other))
        ev['how'] = how
        if ev['err']:
            now = self.em.wrapper
            ev['kept'] = (now is before[0] and now.function is before[1]
                          and now.bound_to is before[2])
        else:
            self.fn = fn
            self.builtin = None if ev['logged'] else fn

    def do_call(self, op, ev):
        for em in self.parts:
            trees.taken(em)
        ev['shape'], vals, ev['err'], raw = call_emitter(
            self.em, op['how'], op.get('n', 0))
        ev['out'] = [enc(v) if not inspect.isgenerator(v)
                     and type(v).__name__ not in ITERS
                     else f'{type(v).__name__}' for v in vals]
        rows = [trees.taken(em) for em in self.parts]
        ev['taken'] = [[enc(v) for v in vs] for vs in rows]
        if self.builtin:
            ev['mapped'] = []
            for row in zip(*rows) if rows else [()] * len(vals):
                if self.kind == 'one':
                    v, err = attempt(self.builtin, row[0])
                else:
                    v, err = attempt(self.builtin,
                                     **dict(zip(self.names, row)))
                if err:
                    ev['raised'] = err
                    break
                ev['mapped'].append(
                    type(v).__name__ if type(v).__name__ in ITERS
                    else enc(v))
        else:
            ev['raised'] = self.calls[-1]['err'] if self.calls else ''
        if op.get('scribble') and ev['shape'] == 'list':
            scribble(raw)

    def do_reset(self, op, ev):
        _, ev['err'] = attempt(self.em.reset)

    def do_seed(self, op, ev):
        _, ev['err'] = attempt(self.em.seed, op['value'])

    def do_set_rng_seed(self, op, ev):
        _, ev['err'] = attempt(setattr, self.em, 'rng_seed', op['value'])

    def do_seed_other(self, op, ev):
        _, ev['err'] = attempt(self.other.seed, op['value'])

    def do_bind(self, op, ev):
        ev['bound'] = op['bound']
        obj = self.em if op['bound'] == 'own' else self.other
        _, ev['err'] = attempt(setattr, self.em.wrapper, 'bound_to', obj)

    def do_swap(self, op, ev):
        fn = self.describe(op['fn'], ev)
        _, ev['err'] = attempt(setattr, self.em.wrapper, 'function', fn)
        self.fn = fn
        self.builtin = None if ev['logged'] else fn

    def do_look(self, op, ev):
        pass


ITERS = {'str_iterator', 'str_ascii_iterator', 'list_iterator',
         'tuple_iterator', 'dict_keyiterator'}

# ---------------------------------------------------------------- scripts

POOL = ['a', 'b', 'c', 'int:0', 'int:7', "str:''", 'NoneType:None',
        'bool:False', 'list:[]', 'tuple:(1, 2)', 'd', 'e', 'float:0.5']
EXTRA = ['x', 'y', 'extra', 'a', 'b', 'source', 'value']


def rand_source(rng):
    vals = [rng.choice(POOL) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6]))]
    k = rng.choice(['static', 'seq', 'seq', 'iter', 'stub', 'duck'])
    if k == 'static':
        return {'k': 'static', 'v': vals[0]}
    return {'k': k, 'items': vals}


def order(ps):
    """Parameters in an order that Python accepts."""
    rank = {'po': 0, 'pk': 1, 'va': 2, 'ko': 3, 'vk': 4}
    ps = sorted(ps, key=lambda p: rank[p['k']])
    seen = False
    for p in ps:
        if p['k'] in ('po', 'pk'):
            if seen:
                p['d'] = True
            seen = seen or p['d']
        if p['k'] in ('va', 'vk'):
            p['d'] = False
    return ps


def rand_params(rng, kind, names):
    """Parameters that fit, or some that may not."""
    ps = []
    if kind == 'one':
        k = rng.random()
        if k < 0.75:
            ps.append({'n': rng.choice(['v', 'value', 'source', 'item']),
                       'k': rng.choice(['pk', 'pk', 'po']),
                       'd': rng.random() < 0.15})
        elif k < 0.9:
            ps.append({'n': 'args', 'k': 'va', 'd': False})
    else:
        vk = rng.random() < 0.35
        for n in names:
            if not vk or rng.random() < 0.4:
                ps.append({'n': n, 'k': rng.choice(['pk', 'pk', 'ko']),
                           'd': rng.random() < 0.15})
        rng.shuffle(ps)
        if vk:
            ps.append({'n': 'kwargs', 'k': 'vk', 'd': False})
    used = {p['n'] for p in ps}
    if rng.random() < 0.5:
        ps.append({'n': 'rng', 'k': rng.choice(['pk', 'ko']),
                   'd': rng.random() < 0.4})
    if rng.random() < 0.3:
        n = rng.choice([x for x in EXTRA if x not in used])
        ps.append({'n': n, 'k': rng.choice(['pk', 'ko']),
                   'd': rng.random() < 0.8})
    if kind == 'many' and ps and rng.random() < 0.15:
        ps.pop(rng.randrange(len(ps)))
    if kind == 'many' and rng.random() < 0.05:
        ps.insert(0, {'n': 'po', 'k': 'po', 'd': rng.random() < 0.5})
    if kind == 'one' and rng.random() < 0.06:
        ps.append({'n': 'kwargs', 'k': 'vk', 'd': False})
    return order(ps)


def rand_fn(rng, kind, names, number, builtins=0.15):
    if rng.random() < builtins:
        if kind == 'one':
            b = rng.choice(['str', 'bool', 'repr', 'type', 'ascii',
                            'callable', 'getattr', 'dict', 'next', 'max',
                            'iter', 'str', 'repr', 'int', 'int', 'int',
                            'float', 'len', 'ord', 'abs', 'tuple', 'list',
                            'range', 'bytes'])
        else:
            b = rng.choice(['dict', 'dict', 'dict', 'type', 'max', 'getattr'])
        return {'id': b, 'via': 'builtin'}
    fails = {}
    if rng.random() < 0.2:
        fails = {'fails': sorted(rng.sample(range(1, 12),
                                            rng.randrange(1, 4))),
                 'error': rng.choice(sorted(ERRORS))}
    return {**fails, 'id': f'f{number}x',
            'params': rand_params(rng, kind, names),
            'via': rng.choice(['lambda', 'lambda', 'lambda', 'object',
                               'partial', 'wraps']),
            'res': rng.choice(['', '', '', 'draw', 'none', 'zero', 'empty',
                               'list', 'false'])}


def suits(rng, sources, kind, number, builtins=0.15):
    """A function; those without a signature take the first values, or give
    a TypeError for them."""
    names = list(sources)
    first = [dec(r['v'] if r['k'] == 'static' else r['items'][0])
             for r in sources.values()]
    while True:
        f = rand_fn(rng, kind, names, number, builtins)
        if f['via'] != 'builtin' or params(BUILTINS[f['id']]) is not None:
            return f
        if kind == 'one':
            _, err = attempt(BUILTINS[f['id']], first[0])
        else:
            _, err = attempt(BUILTINS[f['id']], **dict(zip(names, first)))
        if err in ('', 'TypeError'):
            return f


def script(rng, i, tier, rejects=0.25, builtins=0.15):
    t = Trace(WrapDriver, {})
    kind = rng.choice(['one', 'one', 'many'])
    if kind == 'one':
        names = ['source']
    else:
        names = rng.sample(['a', 'b', 'c', 'source', 'function', 'number',
                            'one'], rng.choice([0, 1, 1, 2, 2, 2, 2, 3, 3, 4]))
    k = rng.random()
    sources = {n: rand_source(rng) for n in names}
    if k < 0.25:
        for r in sources.values():
            alike(r, rng.choice([['a', 'b', 'abc', 'xyz'],
                                 ['int:0', 'int:1', 'int:25'],
                                 ["str:'7'", "str:'12'", 'x', 'int:3'],
                                 ["str:'5'", 'NoneType:None', 'list:[1]'],
                                 ['a', "str:''", 'NoneType:None', 'b']]))
    n = 0
    while t.driver.em is None and n < 8:
        n += 1
        t.do({'op': 'new', 'kind': kind, 'sources': sources,
              'fn': suits(rng, sources, kind, n, builtins),
              'bound_fn': rng.random() < 0.15,
              'seed': rng.choice([None, 0, 1, 'x'])})
    if t.driver.em is None:
        return t
    for _ in range(rng.randrange(4, 14)):
        k = rng.random()
        if k < rejects:
            op = {'op': 'set_fn', 'fn': suits(rng, sources, kind, n, builtins),
                  'how_set': rng.choice(['method', 'method', 'rewrap',
                                         'wrapper', 'foreign'])}
            n += 1
            if op['fn']['via'] == 'builtin':
                # It is tried with a value of the source: with the first.
                t.do({'op': 'reset'})
        elif k < rejects + 0.06:
            op = {'op': 'bind', 'bound': rng.choice(['own', 'other'])}
        elif k < rejects + 0.12:
            op = {'op': 'reset'}
        elif k < rejects + 0.2:
            op = {'op': rng.choice(['seed', 'seed', 'set_rng_seed',
                                    'seed_other']),
                  'value': rng.choice([None, 0, 5, 'x'])}
        elif k < rejects + 0.23:
            while True:
                f = suits(rng, sources, kind, n, 0.1)
                if f['via'] != 'builtin' and fit(f, kind, names):
                    break
            n += 1
            op = {'op': 'swap', 'fn': f}
        else:
            op = {'op': 'call', 'how': pick_how(rng),
                  'n': rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 4, 7, 12, 25]),
                  'scribble': rng.random() < 0.2}
        op['look'] = rng.random() < 0.3
        t.do(op)
    return t


def alike(r, vals):
    if r['k'] == 'static':
        r['v'] = vals[0]
    else:
        r['items'] = [vals[i % len(vals)] for i in range(len(r['items']))]


def fit(f, kind, names):
    """Whether binding works, tried with the signature."""
    ns = {}
    fn = eval(f"lambda {source_of(f['params'])}: None", ns)
    kw = {'rng': 1} if any(p['n'] == 'rng' for p in f['params']) else {}
    try:
        if kind == 'one':
            inspect.signature(fn).bind(1, **kw)
        else:
            inspect.signature(fn).bind(**dict.fromkeys(names), **kw)
        return True
    except TypeError:
        return False


def rejected(rng, i, tier):
    return script(rng, i, tier, rejects=0.5, builtins=0.25)


def big(rng, i, tier):
    """Many values at once, and what comes next."""
    t = Trace(WrapDriver, {})
    kind = 'many' if i % 2 else 'one'
    names = ['a', 'b'][:1 + i % 3 % 2] if i % 2 else ['source']
    sources = {n: rand_source(rng) for n in names}
    while t.driver.em is None and len(t.evs) < 9:
        t.do({'op': 'new', 'kind': kind, 'sources': sources, 'seed': 1,
              'fn': suits(rng, sources, kind, len(t.evs))})
    if t.driver.em is None:
        return t
    for _ in range(2):
        t.do({'op': 'call', 'how': rng.choice(['many', 'emit_many']),
              'n': rng.choice(BIG)})
        t.do({'op': 'call', 'how': 'one'})
    return t


SUITES = {'wrap_big': big, 'wrap': script, 'wrap_rejected': rejected}


# ------------------------------------------------------------------ walks

def walk_op(op, rng):
    if op['op'] == 'new':
        kinds = ['seq', 'iter', 'stub', 'duck']
        names = ['source'] if op['kind'] == 'one' else list(op['names'])
        srcs = {n: {'k': rng.choice(kinds), 'items': its}
                for n, its in zip(names, op['items'])}
        return {'op': 'new', 'kind': op['kind'], 'sources': srcs,
                'fn': walk_fn(op), 'bound_fn': False}
    if op['op'] == 'set_fn':
        how = 'foreign' if op['bound'] == 'other' else \
            rng.choice(['method', 'rewrap', 'wrapper'])
        return {'op': 'set_fn', 'fn': walk_fn(op), 'how_set': how}
    if op['op'] == 'seed':
        return {'op': 'seed', 'value': rng.randrange(3)}
    if op['op'] == 'call':
        how = rng.choice(['one', 'emit'] if op['how'] == 'one'
                         else ['many', 'emit_many'])
        return {'op': 'call', 'how': how, 'n': op['n']}
    return {'op': op['op']}


def walk_fn(op):
    return {'id': op['fn'], 'params': op['params'], 'via': 'lambda',
            'res': 'args'}


WALKS = {'wrap': {
    'driver': 'WrapDriver', 'op': walk_op, 'length': 12,
    'outputs': ('out', 'shape', 'err', 'taken', 'calls', 'mapped', 'kept')}}
