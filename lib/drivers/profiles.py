"""Drives real fields, schemas and emitters based on fields
(spec/Profile.tla)."""
import trees
from base import (Trace, attempt, call_emitter, dec, geti, pick_how,
                  scribble)
from wraps import (MISSING, fit, params, rand_params, read_args, source_of,
                   whose)

from fauxdoc.emitters import BasedOnFields, Choice, CopyFields, Static
from fauxdoc.emitters.wrappers import BoundWrapper
from fauxdoc.group import ObjectMap
from fauxdoc.profile import Field, Schema

BUILTINS = {'str': str, 'repr': repr, 'type': type, 'dict': dict,
            'getattr': getattr}


def tok(v):
    if type(v) is str and v.isalpha() and v.isascii():
        return v
    return f'{type(v).__name__}:{v!r}'


def val(v):
    """A value for the specification."""
    r = {'tok': tok(v), 'str': type(v) is str,
         'raw': v if type(v) is str else ''}
    if v is None:
        r.update(t='none', v=[], s=[])
    elif type(v) is list:
        r.update(t='list', v=[tok(x) for x in v], s=[str(x) for x in v])
    else:
        r.update(t='one', v=[tok(v)], s=[str(v)])
    return r


class Duck:
    """Something of a user's own with just what fields have to have."""

    def __init__(self, name, data, repeat, gate, hide=False, rng_seed=None):
        self.name, self.hide = name, hide
        self.emitter, self.repeat_emitter, self.gate_emitter = \
            data, repeat, gate
        self._last = None
        if rng_seed is not None:
            self.seed(rng_seed)

    def __call__(self):
        val = None
        if self.gate_emitter():
            n = self.repeat_emitter()
            val = self.emitter() if n is None else self.emitter(n)
        self._last = val
        return val

    def every(self, method, *args):
        for em in (self.gate_emitter, self.repeat_emitter, self.emitter):
            if hasattr(em, method):
                getattr(em, method)(*args)

    def reset(self):
        self._last = None
        self.every('reset')

    def seed(self, rng_seed):
        self.every('seed', rng_seed)

    @property
    def previous(self):
        return self._last


class EqualDuck(Duck):
    """The same, equal to all others, false, and without a hash."""

    def __eq__(self, other):
        return isinstance(other, EqualDuck)

    def __bool__(self):
        return False

    __hash__ = None


class Logs:
    """A field that notes when it is called."""
    driver = None
    num = 0

    def __call__(self):
        d = self.driver
        if d is None or d.within:
            if d is not None:
                d.nested += 1
            return super().__call__()
        d.begin(self)
        try:
            out = super().__call__()
        finally:
            d.within = False
        d.end(self, out)
        return out


class Logged(Logs, Field):
    pass


class LoggedDuck(Logs, Duck):
    pass


class LoggedEqual(Logs, EqualDuck):
    pass


def state_of(f):
    """The states of the random generators of a field."""
    ems = [f, f.emitter, f.repeat_emitter, f.gate_emitter]
    return [hash(e.rng.getstate()) for e in ems
            if hasattr(getattr(e, 'rng', None), 'getstate')
            and not hasattr(e, 'derived')]


class ProfileDriver:
    spec = 'Profile'

    def __init__(self, cfg):
        self.fields = []
        self.ems = []
        self.em_of = []            # fields of the emitters based on fields
        self.schema = None
        self.parts = {}            # id of a recorded emitter -> (field, part)
        self.log = []
        self.acts = []
        self.within = False
        self.nested = 0
        self.count = 0
        self.other = Choice(['p', 'q'], rng_seed=5)
        self.docs = []

    # --------------------------------------------------------- recording

    def drain(self):
        for f in self.fields:
            for em in (f.gate_emitter, f.repeat_emitter, f.emitter):
                if hasattr(em, 'given'):
                    trees.taken(em)

    def sources(self, but):
        """Random generators of fields that others are based on."""
        ids = sorted({i for of in self.em_of for i in of} - {but.num})
        return [state_of(self.fields[i - 1]) for i in ids]

    def begin(self, f):
        self.drain()
        self.acts = []
        self.nested = 0
        self.within = True
        self.before = self.sources(f) if hasattr(f.emitter, 'derived') else []

    def given_by_others(self, f):
        n = self.nested
        for g in self.fields:
            if g is not f:
                for em in (g.gate_emitter, g.repeat_emitter, g.emitter):
                    if hasattr(em, 'given'):
                        k = len(trees.taken(em))
                        n += 0 if hasattr(em, 'derived') else k
        self.nested = 0
        return n

    def prevs(self):
        return [tok(f.previous) for f in self.fields]

    def end(self, f, out):
        gate = trees.taken(f.gate_emitter)
        rep = trees.taken(f.repeat_emitter)
        data = trees.taken(f.emitter)
        still = True
        if hasattr(f.emitter, 'derived'):
            still = self.sources(f) == self.before
        self.log.append({
            'f': f.num,
            'gate': [{'yes': bool(v), 'tok': tok(v)} for v in gate],
            'rep': [{'n': -1 if v is None else geti(v), 'tok': tok(v)}
                    for v in rep],
            'data': [val(v) for v in data], 'acts': self.acts,
            'out': val(out), 'prevs': self.prevs(),
            'others': self.given_by_others(f), 'still': still})

    # ------------------------------------------------------------ making

    def part(self, r, which):
        if 'em' in r:
            em = self.ems[r['em'] - 1]
            return em, {'fixed': False, 'items': [], 'pos': 0,
                        'em': r['em']}, True
        em = trees.recorded(trees.build(r, r.get('seed')))
        items = [r['v']] if r['k'] == 'static' else r.get('items', [])
        fixed = r['k'] in ('static', 'seq', 'iter', 'stub', 'duck')
        multi = True
        if r['k'] in ('static', 'seq', 'choice', 'poisson', 'gaussian'):
            multi = any(t != 'NoneType:None' for t in items)
        return em, {'fixed': fixed,
                    'items': [tok(dec(t)) for t in items] if fixed else [],
                    'pos': 0, 'em': 0}, multi

    def action(self, f, of):
        """A function that notes its calls."""
        if f['via'] == 'builtin':
            return BUILTINS[f['id']]
        ps = f['params']
        names = ', '.join(f"{p['n']}={p['n']}" for p in ps)
        key = len(self.acts)

        def log(vals):
            k = box['em']
            fs = [self.fields[i - 1] for i in self.em_of[k - 1]]
            args, rng = read_args(ps, vals, len(fs) == 1,
                                  [x.name for x in fs])
            self.count += 1
            res = f"{f['id']}{self.count}"
            who = whose(rng, self.ems[k - 1], self.other)
            if f.get('res') == 'draw' and who in ('own', 'other'):
                res = f'{self.count}/{rng.random()}'
            elif f.get('res') == 'none':
                res = None
            elif f.get('res') == 'zero':
                res = 0
            elif f.get('res') == 'list':
                res = ['x', self.count]
            elif f.get('res') == 'same' and args and args[0] is not MISSING:
                res = args[0]
            elif f.get('res') == 'args':
                res = f['id'] + ''.join(map(str, args))
            self.acts.append({
                'em': k, 'fn': f['id'], 'rng': who, 'res': tok(res),
                'args': [tok(a) if a is not MISSING else '!missing'
                         for a in args]})
            return res
        fn = eval(f"lambda {source_of(ps)}: _log(dict({names}))",
                  {'_log': log, 'dict': dict})
        box = {'em': key}
        fn_box[id(fn)] = box
        self.keep = getattr(self, 'keep', []) + [fn]
        return fn

    def describe(self, f, ev, fields):
        fn = self.action(f, fields)
        ps = params(fn)
        ev.update(fn=f['id'], params=ps or [], sig=ps is not None, ok=True)
        if ps is None:
            vals = [x.previous for x in fields]
            try:
                if len(vals) == 1:
                    fn(vals[0])
                else:
                    fn(**{x.name: v for x, v in zip(fields, vals)})
            except Exception:                             # noqa
                ev['ok'] = False
        return fn

    # ------------------------------------------------------------ events

    def apply(self, op):
        ev = {'op': op['op'], 'err': ''}
        self.drain()
        self.log, self.acts, self.nested = [], [], 0
        there = list(self.fields)
        before = [state_of(f) for f in there]
        getattr(self, 'do_' + op['op'])(op, ev)
        ev['calls'] = self.log
        ev['prevs'] = self.prevs()
        ev['vals'] = [val(f.previous) for f in self.fields] \
            if op['op'] in ('new_em', 'set_action') else []
        ev['acts'] = self.acts
        ev['others'] = self.given_by_others(None)
        ev['still'] = [state_of(f) for f in there] == before
        return ev

    def do_new_field(self, op, ev):
        ev['name'], ev['hide'] = op['name'], op.get('hide', False)
        gate, ev['gate'], _ = self.part(op['gate'], 'gate') \
            if op.get('gate') else (None, dict(YES), 0)
        rep, ev['rep'], ev['multi'] = self.part(op['rep'], 'rep') \
            if op.get('rep') else (None, dict(ONE), False)
        data, ev['data'], _ = self.part(op['data'], 'data')
        kw = {}
        if rep is not None:
            kw['repeat'] = rep
        if gate is not None:
            kw['gate'] = gate
        if op.get('hide'):
            kw['hide'] = True
        if op.get('seed') is not None:
            kw['rng_seed'] = op['seed']
        if op.get('duck'):
            cls = LoggedEqual if op['duck'] == 'equal' else LoggedDuck
            kw = {'repeat': Static(None), 'gate': Static(True), **kw}
            f, ev['err'] = attempt(cls, op['name'], data, **kw)
            f.multi_valued = ev['multi']
        else:
            f, ev['err'] = attempt(Logged, op['name'], data, **kw)
        f.driver, f.num = self, len(self.fields) + 1
        for name in ('gate_emitter', 'repeat_emitter'):
            em = getattr(f, name)
            if not hasattr(em, 'given'):
                trees.recorded(em)
        self.fields.append(f)

    def do_set_part(self, op, ev):
        f = self.fields[op['f'] - 1]
        em, ev['to'], multi = self.part(op['to'], op['part'])
        ev.update(f=op['f'], part=op['part'], multi=multi)
        name = {'gate': 'gate_emitter', 'rep': 'repeat_emitter',
                'data': 'emitter'}[op['part']]
        if op.get('inplace'):
            # Not another emitter, but the present one with other values.
            old = getattr(f, name)
            if type(old).__name__ == 'Static' and op['to']['k'] == 'static':
                self.duck(f, op, multi)
                return self.inplace(ev, old, 'value', em.value)
            if type(old).__name__ in ('Iterative', 'Sequential') and \
                    op['to']['k'] in ('iter', 'seq'):
                vals = [dec(t) for t in op['to']['items']]
                ev['multi'] = type(old).__name__ == 'Iterative' or any(
                    v is not None for v in vals)
                self.duck(f, op, ev['multi'])
                return self.inplace(ev, old, 'iterator_factory',
                                    lambda: iter(vals))
        self.duck(f, op, multi)
        _, ev['err'] = attempt(setattr, f, name, em)

    def duck(self, f, op, multi):
        if isinstance(f, Duck) and op['part'] == 'rep':
            f.multi_valued = multi

    def inplace(self, ev, em, attr, value):
        _, ev['err'] = attempt(setattr, em, attr, value)

    def of(self, op):
        fs = [self.fields[i - 1] for i in op['of']]
        if not op['list']:
            return fs[0]
        return tuple(fs) if op.get('tuple') else fs

    def do_new_em(self, op, ev):
        ev.update(kind=op['kind'], of=op['of'], list=op['list'],
                  hassep=op.get('sep') is not None, sep=op.get('sep') or '',
                  fn='', params=[], sig=True, ok=True)
        k = len(self.ems) + 1
        if op['kind'] == 'copy':
            args = (op['sep'],) if op.get('sep') is not None or \
                op.get('explicit') else ()
            em, ev['err'] = attempt(CopyFields, self.of(op), *args)
        else:
            fn = self.describe(op['fn'], ev,
                               [self.fields[i - 1] for i in op['of']])
            if op['fn']['via'] != 'builtin':
                fn_box[id(fn)]['em'] = k
            given = BoundWrapper(fn, self.other) if op.get('bound_fn') else fn
            em, ev['err'] = attempt(BasedOnFields, self.of(op), given,
                                    **({'rng_seed': op['seed']}
                                       if op.get('seed') is not None else {}))
        if not ev['err']:
            em = trees.recorded(em)
            em.derived = k
            self.ems.append(em)
            self.em_of.append(op['of'])

    def do_set_action(self, op, ev):
        em = self.ems[op['em'] - 1]
        of = self.em_of[op['em'] - 1]
        fn = self.describe(op['fn'], ev, [self.fields[i - 1] for i in of])
        if op['fn']['via'] != 'builtin':
            fn_box[id(fn)]['em'] = op['em']
        ev.update(em=op['em'], bound='own', kind='based')
        before = em.action, em.action.function, em.action.bound_to
        if op['how_set'] == 'method':
            _, ev['err'] = attempt(em.set_action_function, fn)
        elif op['how_set'] == 'wrapper':
            _, ev['err'] = attempt(setattr, em, 'action',
                                   BoundWrapper(fn, em))
        else:
            ev['bound'] = 'other'
            _, ev['err'] = attempt(setattr, em, 'action',
                                   BoundWrapper(fn, self.other))
        now = em.action
        ev['kept'] = (now is before[0] and now.function is before[1]
                      and now.bound_to is before[2])

    def do_set_source(self, op, ev):
        ev.update(em=op['em'], of=op['of'], list=op['list'])
        _, ev['err'] = attempt(self.ems[op['em'] - 1].set_source_fields,
                               self.of(op))
        self.em_of[op['em'] - 1] = op['of']

    def do_set_sep(self, op, ev):
        ev.update(em=op['em'], hassep=op['sep'] is not None,
                  sep=op['sep'] or '')
        _, ev['err'] = attempt(setattr, self.ems[op['em'] - 1], 'separator',
                               op['sep'])

    def do_emit(self, op, ev):
        ev.update(em=op['em'], how=op['how'], n=op['n'])
        ev['shape'], vals, ev['err'], raw = call_emitter(
            self.ems[op['em'] - 1], op['how'], op['n'])
        ev['out'] = [val(v) for v in vals]
        if ev['shape'] == 'list' and op.get('scribble'):
            scribble(raw)

    def do_call(self, op, ev):
        ev['f'] = op['f']
        _, ev['err'] = attempt(self.fields[op['f'] - 1])

    def do_hide(self, op, ev):
        ev.update(f=op['f'], b=op['b'])
        _, ev['err'] = attempt(setattr, self.fields[op['f'] - 1], 'hide',
                               op['b'])

    def do_reset(self, op, ev):
        ev['f'] = op['f']
        _, ev['err'] = attempt(self.fields[op['f'] - 1].reset)

    def do_seed(self, op, ev):
        ev['f'] = op['f']
        _, ev['err'] = attempt(self.fields[op['f'] - 1].seed, op['value'])

    def do_reset_all(self, op, ev):
        _, ev['err'] = attempt(self.schema.reset_fields)

    def do_seed_all(self, op, ev):
        _, ev['err'] = attempt(self.schema.seed_fields, op['value'])

    def do_reset_source(self, op, ev):
        ev['em'] = op['em']
        _, ev['err'] = attempt(self.ems[op['em'] - 1].reset_source)

    def do_set_fields(self, op, ev):
        ev['ids'] = op['ids']
        fs = [self.fields[i - 1] for i in op['ids']]
        if self.schema is None:
            self.schema, ev['err'] = attempt(Schema, *fs)
        elif op.get('map'):
            _, ev['err'] = attempt(setattr, self.schema, 'fields',
                                   ObjectMap({f.name: f for f in fs}))
        else:
            _, ev['err'] = attempt(self.schema.set_fields, *fs)

    def do_add_fields(self, op, ev):
        ev['ids'] = op['ids']
        fs = [self.fields[i - 1] for i in op['ids']]
        if op.get('item') and len(fs) == 1:
            _, ev['err'] = attempt(self.schema.fields.__setitem__,
                                   fs[0].name, fs[0])
        else:
            _, ev['err'] = attempt(self.schema.add_fields, *fs)

    def do_remove(self, op, ev):
        ev['f'] = op['f']
        name = self.fields[op['f'] - 1].name
        if op.get('pop'):
            _, ev['err'] = attempt(self.schema.fields.pop, name)
        else:
            _, ev['err'] = attempt(self.schema.fields.__delitem__, name)

    def do_doc(self, op, ev):
        doc, ev['err'] = attempt(self.schema)
        ev['type'] = type(doc).__name__
        ev['new'] = all(doc is not d for d in self.docs)
        self.docs.append(doc)
        ev['doc'] = [{'name': k, 'tok': tok(v)} for k, v in doc.items()] \
            if isinstance(doc, dict) else []
        if op.get('scribble') and isinstance(doc, dict):
            doc.pop(next(iter(doc), None), None)
            doc['scribbled'] = 1

    def do_look(self, op, ev):
        ev['multi'] = [f.multi_valued for f in self.fields]
        s = self.schema
        ev['public'] = list(s.public_fields) if s else []
        ev['hidden'] = list(s.hidden_fields) if s else []
        ev['maps'] = not s or all(
            isinstance(m, ObjectMap)
            for m in (s.fields, s.public_fields, s.hidden_fields))
        if s and op.get('scribble'):
            s.public_fields.clear()
            s.hidden_fields['zzz'] = None
        ev['unknown'] = all(
            em.num_unique_values is None and not em.emits_unique_values
            for em in self.ems)


fn_box = {}
YES = {'fixed': True, 'items': ['bool:True'], 'pos': 0, 'em': 0}
ONE = {'fixed': True, 'items': ['NoneType:None'], 'pos': 0, 'em': 0}

# ---------------------------------------------------------------- scripts

DATA = ['a', 'b', 'c', 'd', 'e', 'int:0', 'int:5', "str:''", 'bool:False',
        'float:0.5', "str:'x y'", 'int:-3', 'str:"1,2"', 'NoneType:None']
NAMES = ['f', 'g', 'h', 'title', 'name', 'x', 'value', 'source', 'a', 'b']
SEPS = [None, None, ', ', '', ' ', '|', '; ', 'and']


def r_gate(rng):
    k = rng.random()
    if k < 0.3:
        return None
    if k < 0.5:
        return {'k': 'chance', 'p': rng.choice([0.3, 0.5, 0.7]),
                'seed': rng.randrange(99)}
    vals = [rng.choice(['bool:True', 'bool:True', 'bool:False', 'int:1',
                        'int:0', 'NoneType:None', "str:''", 'yes', 'list:[]'])
            for _ in range(rng.randrange(1, 5))]
    if k < 0.6:
        return {'k': 'static', 'v': vals[0]}
    return {'k': rng.choice(['seq', 'iter', 'stub', 'duck']), 'items': vals}


def r_rep(rng, p=0.5):
    k = rng.random()
    if k > p:
        return None
    k = rng.random()
    if k < 0.25:
        return {'k': 'static', 'v': rng.choice(['NoneType:None', 'int:0',
                                                'int:1', 'int:3'])}
    n = rng.randrange(1, 5)
    vals = [f'int:{rng.choice([0, 1, 1, 2, 2, 3, 5, 5, 13])}'
            for _ in range(n)]
    if k < 0.35:
        return {'k': 'choice', 'items': vals, 'mode': 'rep',
                'seed': rng.randrange(99)}
    if k < 0.40:
        return {'k': 'seq', 'items': ['NoneType:None'] * n}
    if k < 0.46:
        vals[rng.randrange(n)] = 'NoneType:None'
    if k < 0.54:
        return {'k': 'poisson', 'items': vals, 'mu': 2, 'floor': 0.01,
                'mode': 'rep', 'seed': rng.randrange(99)}
    if set(vals) == {'NoneType:None'}:
        vals[0] = 'int:2'
    return {'k': rng.choice(['seq', 'iter', 'stub', 'duck']), 'items': vals}


def r_data(rng):
    k = rng.random()
    vals = [rng.choice(DATA) for _ in range(rng.randrange(1, 7))]
    if k < 0.65:
        return {'k': rng.choice(['seq', 'iter', 'stub', 'duck']), 'items': vals}
    if k < 0.75:
        return {'k': 'static', 'v': vals[0]}
    if k < 0.9:
        return {'k': 'choice', 'items': vals, 'mode': 'rep',
                'seed': rng.randrange(99)}
    return dict(trees.r_word(rng, ['static', 'seq', 'choice']),
                seed=rng.randrange(99))


def r_fn(rng, names, n, good=0.8):
    one = len(names) == 1
    kind = 'one' if one else 'many'
    want = rng.random() < good
    for _ in range(100):
        ps = rand_params(rng, kind, names)
        f = {'id': f'f{n}x', 'params': ps, 'via': 'lambda',
             'res': rng.choice(['', '', 'draw', 'none', 'zero', 'list',
                                'same'])}
        if fit(f, kind, names) == want:
            break
    return f


class Script:
    def __init__(self, rng):
        self.rng = rng
        self.t = Trace(ProfileDriver, {})
        self.names = []              # of fields, by number
        self.order = []
        self.ems = []                # (kind, number of sources, names)
        self.fns = 0
        self.derived = set()         # fields that are based on others

    def do(self, **op):
        return self.t.do(op)

    def field(self, data=None, hide=None, name=None):
        rng = self.rng
        if name is None:
            name = rng.choice(NAMES) if rng.random() < 0.3 else \
                rng.choice([n for n in NAMES if n not in self.names]
                           or NAMES)
        self.do(op='new_field', name=name,
                hide=rng.random() < 0.2 if hide is None else hide,
                gate=r_gate(rng), rep=r_rep(rng, 0.15 if data else 0.5),
                data=data or r_data(rng),
                duck=rng.choice(['', '', '', '', '', '', 'duck', 'equal']),
                seed=rng.choice([None, None, 1, 'x']))
        self.names.append(name)
        return len(self.names)

    def sources(self):
        """Some fields, with different names."""
        rng = self.rng
        ids = list(range(1, len(self.names) + 1))
        rng.shuffle(ids)
        of, seen = [], set()
        for i in ids[:rng.choice([1, 1, 1, 2, 2, 3])]:
            if self.names[i - 1] not in seen:
                seen.add(self.names[i - 1])
                of.append(i)
        return of, len(of) > 1 or rng.random() < 0.25

    def em(self, good=0.9):
        rng = self.rng
        of, lst = self.sources()
        op = {'op': 'new_em', 'kind': rng.choice(['copy', 'copy', 'based']),
              'of': of, 'list': lst, 'tuple': rng.random() < 0.2}
        if op['kind'] == 'copy':
            op['sep'] = rng.choice(SEPS)
            op['explicit'] = rng.random() < 0.3
        else:
            self.fns += 1
            op['fn'] = r_fn(rng, [self.names[i - 1] for i in of], self.fns,
                            good)
            op['seed'] = rng.choice([None, 3])
            op['bound_fn'] = rng.random() < 0.15
        ev = self.t.do(op)
        if not ev['err']:
            self.ems.append([op['kind'], of, lst])
            return len(self.ems)
        return 0

    def change(self, good=0.8):
        """A change of an emitter based on fields."""
        rng = self.rng
        k = rng.randrange(len(self.ems))
        kind, of, lst = self.ems[k]
        if rng.random() < 0.15:
            return self.do(op='reset_source', em=k + 1)
        if kind == 'copy':
            if rng.random() < 0.5:
                return self.do(op='set_sep', em=k + 1, sep=rng.choice(SEPS))
            of, lst = self.sources()
            self.ems[k][1:] = [of, lst]
            return self.do(op='set_source', em=k + 1, of=of, list=lst)
        self.fns += 1
        return self.do(
            op='set_action', em=k + 1,
            fn=r_fn(rng, [self.names[i - 1] for i in of], self.fns, good),
            how_set=rng.choice(['method', 'method', 'wrapper', 'foreign']))

    def emit(self):
        rng = self.rng
        return self.do(op='emit', em=rng.randrange(len(self.ems)) + 1,
                       how=pick_how(rng), n=rng.choice([0, 1, 2, 3]),
                       scribble=rng.random() < 0.2)

    def call(self):
        return self.do(op='call', f=self.rng.randrange(len(self.names)) + 1)

    def part(self):
        rng = self.rng
        f = rng.randrange(len(self.names)) + 1
        part = rng.choice(['gate', 'rep', 'data'])
        if part == 'data' and f in self.derived:
            part = 'gate'
        r = {'gate': r_gate, 'rep': lambda g: r_rep(g, 1.0),
             'data': r_data}[part](rng)
        if r is None:
            r = {'k': 'static', 'v': 'bool:True'}
        if part != 'data' and rng.random() < 0.25:
            r = {'k': 'static', 'v': rng.choice(
                ['bool:False', 'bool:True', 'int:1'] if part == 'gate' else
                ['NoneType:None', 'NoneType:None', 'int:0', 'int:2'])}
        return self.do(op='set_part', f=f, part=part, to=r,
                       inplace=rng.random() < 0.5)

    def seeds(self):
        return self.rng.choice([None, 0, 1, 'x', 77])


def repeats(rng):
    """What a field reports while its repeat emitter changes."""
    s = Script(rng)
    statics = ['NoneType:None', 'NoneType:None', 'int:0', 'int:2', 'int:3']
    s.do(op='new_field', name='f', hide=False, gate=r_gate(rng),
         rep=rng.choice([None, {'k': 'static', 'v': rng.choice(statics)},
                         r_rep(rng, 1)]),
         data=r_data(rng), seed=None)
    s.names.append('f')
    for _ in range(rng.randrange(3, 9)):
        r = {'k': 'static', 'v': rng.choice(statics)} \
            if rng.random() < 0.7 else r_rep(rng, 1)
        s.do(op='set_part', f=1, part='rep', to=r,
             inplace=rng.random() < 0.8)
        s.do(op='look')
        if rng.random() < 0.5:
            s.call()
    return s.t


def fields(rng, i, tier):
    if i % 8 == 7:
        return repeats(rng)
    s = Script(rng)
    for _ in range(rng.choice([1, 1, 2])):
        s.field()
    for _ in range(rng.randrange(4, 16)):
        k = rng.random()
        if k < 0.65:
            s.call()
        elif k < 0.75:
            s.do(op='reset', f=rng.randrange(len(s.names)) + 1)
        elif k < 0.8:
            s.do(op='seed', f=rng.randrange(len(s.names)) + 1,
                 value=s.seeds())
        elif k < 0.9:
            s.part()
        else:
            s.do(op='look')
    return s.t


def based(rng, i, tier, good=0.85):
    s = Script(rng)
    for _ in range(rng.randrange(1, 4)):
        s.field()
    if rng.random() < 0.5:
        s.call()
    while not s.ems:
        s.em(good)
    if rng.random() < 0.3:
        s.em(good)
    if rng.random() < 0.4:
        s.derived.add(s.field(data={'em': len(s.ems)}))
        if rng.random() < 0.4:
            if s.em(good):
                s.derived.add(s.field(data={'em': len(s.ems)}))
    for _ in range(rng.randrange(5, 18)):
        k = rng.random()
        if k < 0.35:
            s.call()
        elif k < 0.75:
            s.emit()
        elif k < 0.85:
            s.change(good)
        elif k < 0.9:
            s.do(op='reset', f=rng.randrange(len(s.names)) + 1)
        elif k < 0.93:
            s.part()
        elif k < 0.96:
            s.do(op='seed', f=rng.randrange(len(s.names)) + 1,
                 value=s.seeds())
        else:
            s.do(op='look')
    return s.t


def actions(rng, i, tier):
    return based(rng, i, tier, good=0.5)


def schema(rng, i, tier):
    s = Script(rng)
    for _ in range(rng.randrange(1, 5)):
        s.field()
    if rng.random() < 0.6:
        if s.em(1.0):
            s.derived.add(s.field(data={'em': len(s.ems)}))
    ids = list(range(1, len(s.names) + 1))
    if rng.random() < 0.3:
        rng.shuffle(ids)
    ids = ids[:rng.randrange(0 if rng.random() < 0.1 else 1, len(ids) + 1)]
    s.do(op='set_fields', ids=ids)

    def order(cur, ids):
        cur = list(cur)
        for f in ids:
            same = [x for x in range(len(cur))
                    if s.names[cur[x] - 1] == s.names[f - 1]]
            if same:
                cur[same[0]] = f
            else:
                cur.append(f)
        return cur
    cur = order([], ids)
    for _ in range(rng.randrange(4, 14)):
        k = rng.random()
        if k < 0.55:
            s.do(op='doc', scribble=rng.random() < 0.3)
        elif k < 0.62:
            s.do(op='hide', f=rng.randrange(len(s.names)) + 1,
                 b=rng.random() < 0.5)
        elif k < 0.70:
            if rng.random() < 0.5:
                f = s.field()
            else:
                f = rng.randrange(len(s.names)) + 1
            ids = [f] if rng.random() < 0.7 else \
                [f, rng.randrange(len(s.names)) + 1]
            cur = order(cur, ids)
            s.do(op='add_fields', ids=ids, item=rng.random() < 0.3)
        elif k < 0.75 and cur:
            f = rng.choice(cur)
            cur.remove(f)
            s.do(op='remove', f=f, pop=rng.random() < 0.5)
        elif k < 0.79:
            ids = rng.sample(range(1, len(s.names) + 1),
                             rng.randrange(1, len(s.names) + 1))
            cur = order([], ids)
            s.do(op='set_fields', ids=ids, map=rng.random() < 0.3)
        elif k < 0.85:
            s.do(op='look', scribble=rng.random() < 0.5)
        elif k < 0.89:
            s.do(op='reset_all')
        elif k < 0.92:
            s.do(op='seed_all', value=s.seeds())
        elif k < 0.95:
            s.call()
        elif k < 0.97 and s.ems:
            s.change(1.0)
        else:
            s.part()
    return s.t


SUITES = {'fields': fields, 'based': based, 'actions': actions,
          'schema': schema}


# ------------------------------------------------------------------ walks

def walk_setup(state, rng):
    kinds = ['seq', 'iter', 'stub', 'duck']

    def part(p, which):
        if p['em']:
            return {'em': p['em']}
        k = 'seq' if which == 'rep' else rng.choice(kinds)
        return {'k': k, 'items': p['items']}
    fs, m = state['fields'], state['ems'][0]
    ops = [{'op': 'new_field', 'name': f['name'], 'hide': f['hide'],
            'gate': part(f['gate'], 'gate'), 'rep': part(f['rep'], 'rep'),
            'data': part(f['data'], 'data')} for f in fs]
    em = {'op': 'new_em', 'kind': m['kind'], 'of': m['of'],
          'list': m['list'], 'sep': m['sep'] if m['hassep'] else None}
    if m['kind'] == 'based':
        em['fn'] = {'id': m['fn'], 'params': m['params'], 'via': 'lambda',
                    'res': 'args'}
    return ops[:2] + [em] + ops[2:] + [
        {'op': 'set_fields', 'ids': state['order']}]


WALKS = {'profile': {
    'driver': 'ProfileDriver', 'setup': walk_setup, 'length': 8,
    'op': lambda op, rng: op,
    'outputs': ('calls', 'prevs', 'acts', 'others', 'still', 'vals', 'err',
                'doc', 'type', 'new')}}
