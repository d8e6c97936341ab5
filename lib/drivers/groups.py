"""Drives real ObjectGroups and ObjectMaps (spec/Group.tla)."""
import copy

from base import Trace, attempt, dec, enc

from fauxdoc.group import ObjectGroup, ObjectMap

ATTRS, METHS = ['color', 'size'], ['run', 'stop']
ERRORS = {'ValueError': ValueError, 'AttributeError': AttributeError,
          'KeyError': KeyError, 'TypeError': TypeError,
          'StopIteration': StopIteration, 'RuntimeError': RuntimeError}


def args_token(args, kwargs):
    return ' '.join([enc(a) for a in args]
                    + [f'{k}={enc(v)}' for k, v in sorted(kwargs.items())])


def make_object(desc, num, log, real=str):
    """An object with the given attributes and methods, in one style."""
    style = desc['style']
    attrs, names = [real(a) for a in ATTRS], [real(m) for m in METHS]
    ns = {}

    def method(name, what):
        def run(*args, **kwargs):
            log.append([num, name, args_token(args, kwargs)])
            if what:
                raise ERRORS[what]('on purpose')
            return num
        if what == 'none':
            def run_none():
                log.append([num, name, ''])
            return run_none
        return run

    meths = {}
    for n in METHS:
        what = desc['meths'][n]
        if what == 'data':
            meths[real(n)] = 5
        elif what != '-':
            meths[real(n)] = method(n, what)
    here = {real(a): dec(desc['attrs'][a]) for a in ATTRS
            if desc['attrs'][a] != '-'}
    bad = {real(a): desc['setting'][a] for a in ATTRS if desc['setting'][a]}

    def failing_property(a, v):
        def setter(self, x):
            raise ERRORS[bad[a]]('on purpose')
        if bad[a] == 'AttributeError':
            return property(lambda self: v)
        return property(lambda self: v, setter)

    for a, e in bad.items():
        ns[a] = failing_property(a, here.pop(a))
    if desc['falsy']:
        ns['__len__'] = lambda self: 0
    if style == 'slots':
        ns['__slots__'] = tuple(a for a in attrs if a not in ns)
    elif style == 'class':
        ns.update(here)
        here = {}
    elif style == 'property':
        def prop(a):
            def get(self):
                return vars(self)['_' + a]

            def put(self, v):
                vars(self)['_' + a] = v
            return property(get, put)
        for a in list(here):
            ns[a] = prop(a)
        here = {'_' + a: v for a, v in here.items()}
    elif style == 'dynamic':
        def getattr_(self, name, _here=dict(here)):
            if name in _here:
                return _here[name]
            if name in meths:
                return meths[name]
            raise AttributeError(name)
        ns['__getattr__'] = getattr_
        here = {}
    if style == 'raises':
        # Properties that raise AttributeError: these are not there.
        def missing(self):
            raise AttributeError('not there')
        for n in attrs:
            if n not in here and n not in ns:
                ns[n] = property(missing)
        for n in names:
            if n not in meths:
                ns[n] = property(missing)
    if style != 'dynamic':
        for n, m in meths.items():
            ns[n] = staticmethod(m) if callable(m) else m
    ob = type('Member', (), ns)()
    for a, v in here.items():
        if style == 'property':
            vars(ob)[a] = v
        else:
            setattr(ob, a, v)
    return ob


class GroupDriver:
    spec = 'Group'

    def __init__(self, cfg):
        self.log = []
        self.real = lambda n: cfg.get('names', {}).get(n, n)
        self.objs = [make_object(d, i + 1, self.log, self.real)
                     for i, d in enumerate(cfg['objs'])]
        self.groups = []
        self.speccfg = {'objs': [{k: d[k] for k in ('attrs', 'setting',
                                                    'meths')}
                                 for d in cfg['objs']]}

    def ob(self, n):
        return self.objs[n - 1] if n else None

    def num(self, o):
        if o is None:
            return 0
        for i, x in enumerate(self.objs):
            if x is o:
                return i + 1
        return -1

    def obs(self):
        def look():
            groups = []
            for g in self.groups:
                if isinstance(g, ObjectMap):
                    groups.append({'like': 'map', 'keys': list(g.keys()),
                                   'mem': [self.num(g[k]) for k in g],
                                   'len': len(g)})
                    if [self.num(v) for v in g.values()] != groups[-1]['mem']:
                        groups[-1]['like'] = 'odd map'
                elif isinstance(g, ObjectGroup):
                    mem = [self.num(o) for o in g]
                    groups.append({'like': 'list', 'keys': [''] * len(mem),
                                   'mem': mem, 'len': len(g)})
                    if [self.num(g[i]) for i in range(len(g))] != mem:
                        groups[-1]['like'] = 'odd list'
                else:
                    groups.append({'like': type(g).__name__, 'keys': [],
                                   'mem': [], 'len': 0})
            attrs = [{a: enc(getattr(o, self.real(a)))
                      if hasattr(o, self.real(a)) else '-'
                      for a in ATTRS} for o in self.objs]
            return {'on': True, 'groups': groups, 'attrs': attrs}
        res, err = attempt(look)
        return res if not err else {'on': True, 'groups': err, 'attrs': err}

    def apply(self, op):
        ev = {'op': op['op'], 'g': op.get('g', 0), 'like': op.get('like', ''),
              'keys': op.get('keys', []), 'mem': op.get('mem', []),
              'key': op.get('key', ''), 'o': op.get('o', 0),
              'i': op.get('i', 0), 'a': op.get('a', []), 'b': op.get('b', []),
              'c': op.get('c', []), 'flag': op.get('flag', True),
              'name': op.get('name', ''), 'val': op.get('val', ''),
              'out': [], 'err': ''}
        del self.log[:]
        out, ev['err'] = attempt(self.run, op, ev)
        ev['out'] = [] if ev['err'] or out is None else out
        ev['calls'] = list(self.log)
        ev['obs'] = self.obs() if op.get('look', True) else {'on': False}
        return ev

    def run(self, op, ev):
        kind = op['op']
        if kind == 'look':
            return None
        mem = [self.ob(n) for n in op.get('mem', [])]
        pairs = list(zip(op.get('keys', []), mem))
        if kind == 'new':
            if op['like'] == 'list':
                self.groups.append(ObjectGroup(*mem))
            elif op.get('style') == 'pairs':
                self.groups.append(ObjectMap(pairs))
            elif op.get('style') == 'none' and not pairs:
                self.groups.append(ObjectMap())
            else:
                self.groups.append(ObjectMap(dict(pairs)))
            return None
        if kind == 'give':
            if op['val'] == '-':
                delattr(self.ob(op['o']), self.real(op['name']))
            else:
                setattr(self.ob(op['o']), self.real(op['name']),
                        dec(op['val']))
            return None
        g = self.groups[op['g'] - 1]
        if kind == 'setattr':
            out = g.setattr(self.real(op['name']), dec(op['val']))
            return None if out is None else ['something']
        if kind == 'do':
            args = [dec(t) for t in op.get('args', [])]
            kwargs = {k: dec(t) for k, t in op.get('kwargs', {}).items()}
            ev['val'] = args_token(args, kwargs)
            out = g.do_method(self.real(op['name']), *args, **kwargs)
            return None if out is None else ['something']
        if isinstance(g, ObjectMap):
            return self.run_map(g, op, pairs)
        return self.run_list(g, op, mem)

    def names(self, xs):
        return [str(self.num(x)) for x in xs]

    def run_list(self, g, op, mem):
        kind, o, i = op['op'], self.ob(op.get('o', 0)), op.get('i', 0)
        sl = slice(*[(op.get(k) or [None])[0] for k in 'abc'])
        style = op.get('style', '')
        it = {'': mem, 'tuple': tuple(mem), 'gen': iter(mem),
              'group': ObjectGroup(*mem)}.get(style, mem)
        if kind == 'append':
            g.append(o)
        elif kind == 'insert':
            g.insert(i, o)
        elif kind == 'extend':
            g.extend(it)
        elif kind == 'iadd':
            h = g
            h += it
            assert h is g
        elif kind == 'set':
            g[i] = o
        elif kind == 'del':
            del g[i]
        elif kind == 'pop':
            return self.names([g.pop() if i == -1 and style else g.pop(i)])
        elif kind == 'remove':
            g.remove(o)
        elif kind == 'clear':
            g.clear()
        elif kind == 'reverse':
            g.reverse()
        elif kind == 'sort':
            g.sort(key=self.num, reverse=not op['flag'])
        elif kind == 'imul':
            h = g
            h *= i
            assert h is g
        elif kind == 'setslice':
            g[sl] = it
        elif kind == 'delslice':
            del g[sl]
        elif kind == 'slice':
            self.groups.append(g[sl])
        elif kind == 'add':
            self.groups.append(g + it)
        elif kind == 'addgroup':
            self.groups.append(g + self.groups[i - 1])
        elif kind == 'radd':
            self.groups.append(mem + g)
        elif kind == 'mul':
            self.groups.append(g * i if not style else i * g)
        elif kind == 'copy':
            self.groups.append(self.copied(g, style))
        elif kind == 'get':
            return self.names([g[i]])
        elif kind == 'index':
            return [str(g.index(o))]
        elif kind == 'count':
            return [str(g.count(o))]
        elif kind == 'contains':
            return [str(o in g).upper()]
        elif kind == 'eq':
            return [str(g == mem).upper()] if (g == mem) != (g != mem) \
                else ['odd']
        elif kind == 'eqgroup':
            h = self.groups[i - 1]
            return [str(g == h).upper()] if (g == h) != (g != h) else ['odd']
        elif kind == 'rev':
            return self.names(reversed(g))
        return None

    def copied(self, g, style):
        if style == 'copy':
            return copy.copy(g)
        return g.copy()

    def run_map(self, g, op, pairs):
        kind, o, key = op['op'], self.ob(op.get('o', 0)), op.get('key', '')
        style, flag = op.get('style', ''), op.get('flag', True)
        if kind == 'set':
            g[key] = o
        elif kind == 'del':
            del g[key]
        elif kind == 'pop':
            return self.names([g.pop(key, o) if flag else g.pop(key)])
        elif kind == 'popitem':
            k, v = g.popitem(last=flag)
            return [k] + self.names([v])
        elif kind == 'setdefault':
            return self.names([g.setdefault(key, o)])
        elif kind == 'update':
            g.update(pairs if style else dict(pairs))
        elif kind == 'ior':
            h = g
            h |= dict(pairs)
            assert h is g
        elif kind == 'move':
            g.move_to_end(key, last=flag)
        elif kind == 'clear':
            g.clear()
        elif kind == 'copy':
            self.groups.append(self.copied(g, style))
        elif kind == 'or':
            self.groups.append(g | dict(pairs))
        elif kind == 'fromkeys':
            self.groups.append(type(g).fromkeys(op['keys'], o))
        elif kind == 'get':
            return self.names([g[key]])
        elif kind == 'contains':
            return [str(key in g).upper()]
        elif kind == 'rev':
            return list(reversed(g))
        elif kind == 'eqgroup':
            h = self.groups[op['i'] - 1]
            return [str(g == h).upper()] if (g == h) != (g != h) else ['odd']
        return None


# ---------------------------------------------------------------- scripts

VALUES = ['red', 'int:3', 'NoneType:None', 'list:[1]', "str:''", 'bool:False']
KEYS = ['k', 'l', 'm', 'n']
STYLES = ['plain', 'plain', 'class', 'slots', 'property', 'dynamic', 'raises']


def rand_object(rng, errors):
    def one(n):
        return rng.choice(['-', rng.choice(VALUES), rng.choice(VALUES)])

    def meth(n):
        r = rng.random()
        if r < 0.3:
            return '-'
        if r < errors:
            return rng.choice(['ValueError', 'AttributeError', 'KeyError',
                               'data', 'none', 'StopIteration',
                               'RuntimeError'])
        return ''
    style = rng.choice(STYLES)
    attrs = {a: one(a) for a in ATTRS}
    setting = {a: '' for a in ATTRS}
    if style != 'dynamic':
        for a in ATTRS:
            if attrs[a] != '-' and rng.random() < (errors - 0.3):
                setting[a] = rng.choice(['AttributeError', 'ValueError',
                                         'TypeError'])
    if style == 'slots':
        # (Class attributes and slots exclude each other.)
        setting = {a: '' for a in ATTRS}
    return {'style': style, 'attrs': attrs, 'setting': setting,
            'meths': {m: meth(m) for m in METHS},
            'falsy': rng.random() < 0.25}


def rand_mem(rng, n, most=4):
    return [0 if rng.random() < 0.15 else rng.randrange(1, n + 1)
            for _ in range(rng.choice([0, 1, 2, 2, 3, 3, most]))]


def opt(rng, n):
    return [] if rng.random() < 0.35 else [rng.randrange(-n - 2, n + 3)]


def rand_keys(rng, n):
    return rng.sample(KEYS, min(n, len(KEYS)))


def rand_new(rng, n, like):
    mem = rand_mem(rng, n)
    if like == 'list':
        return {'op': 'new', 'like': like, 'mem': mem}
    keys = rand_keys(rng, len(mem))
    return {'op': 'new', 'like': like, 'keys': keys, 'mem': mem[:len(keys)],
            'style': rng.choice(['dict', 'pairs', 'none'])}


LISTOPS = ['append', 'insert', 'extend', 'iadd', 'set', 'del', 'pop', 'remove',
           'clear', 'reverse', 'sort', 'imul', 'setslice', 'delslice', 'slice',
           'slice', 'add', 'addgroup', 'radd', 'mul', 'copy', 'copy', 'get',
           'index', 'count', 'contains', 'eq', 'eqgroup', 'rev']
MAPOPS = ['set', 'set', 'del', 'pop', 'popitem', 'setdefault', 'update', 'ior',
          'move', 'clear', 'copy', 'copy', 'or', 'fromkeys', 'get', 'contains',
          'rev', 'eqgroup']


def rand_op(rng, t, n, act):
    d = t.driver
    g = rng.randrange(1, len(d.groups) + 1)
    grp = d.groups[g - 1]
    size = len(grp)
    if rng.random() < act:
        if rng.random() < 0.5:
            return {'op': 'setattr', 'g': g, 'name': rng.choice(ATTRS),
                    'val': rng.choice(VALUES)}
        return {'op': 'do', 'g': g, 'name': rng.choice(METHS),
                'args': [rng.choice(VALUES)
                         for _ in range(rng.choice([0, 0, 1, 2]))],
                'kwargs': {k: rng.choice(VALUES) for k in
                           rng.sample(['x', 'y'], rng.choice([0, 0, 1, 2]))}}
    if isinstance(grp, ObjectMap):
        mem = rand_mem(rng, n, 3)
        keys = rand_keys(rng, len(mem))
        op = {'op': rng.choice(MAPOPS), 'g': g, 'key': rng.choice(KEYS),
              'o': rng.randrange(n + 1), 'flag': rng.random() < 0.5,
              'keys': keys, 'mem': mem[:len(keys)],
              'style': rng.choice(['', 'copy'])}
    else:
        op = {'op': rng.choice(LISTOPS), 'g': g, 'o': rng.randrange(n + 1),
              'i': rng.randrange(-size - 2, size + 3),
              'a': opt(rng, size), 'b': opt(rng, size),
              'c': rng.choice([[], [], [1], [2], [-1], [-2], [3], [0]]),
              'mem': rand_mem(rng, n, 3), 'flag': rng.random() < 0.5,
              'style': rng.choice(['', 'tuple', 'gen', 'group', 'copy'])}
        if op['op'] in ('add',) and op['style'] == 'gen':
            op['style'] = ''
        if op['op'] in ('mul', 'imul'):
            op['i'] = rng.choice([-1, 0, 1, 2, 3])
            if size > 8:
                op['i'] = min(op['i'], 1)
        if op['op'] == 'setslice' and op['c'] not in ([], [1], [0]) \
                and rng.random() < 0.7:
            # One member for each place.
            k = len(range(size)[slice(*[(op[x] or [None])[0]
                                        for x in 'abc'])])
            op['mem'] = [rng.randrange(n + 1) for _ in range(k)]
        if op['op'] in ('remove', 'index') and size and rng.random() < 0.7:
            op['o'] = max(0, d.num(rng.choice(list(grp))))
        if op['op'] == 'eq' and rng.random() < 0.6:
            op['mem'] = [d.num(o) for o in grp]
            if rng.random() < 0.4 and op['mem']:
                op['mem'][-1] = rng.randrange(n + 1)
    if op['op'] in ('eqgroup', 'addgroup'):
        same = [i + 1 for i, h in enumerate(d.groups)
                if isinstance(h, ObjectMap) == isinstance(grp, ObjectMap)]
        op['i'] = rng.choice(same)
    return op


def script(rng, likes, act, errors=0.3):
    n = rng.randrange(1, 6)
    cfg = {'objs': [rand_object(rng, errors) for _ in range(n)]}
    if rng.random() < 0.15:
        # A name that None has too.
        cfg['names'] = {rng.choice(ATTRS + METHS): '__bool__'}
    t = Trace(GroupDriver, cfg)
    t.do(rand_new(rng, n, rng.choice(likes)))
    for _ in range(rng.randrange(4, 16)):
        if len(t.driver.groups) < 4 and rng.random() < 0.08:
            op = rand_new(rng, n, rng.choice(likes))
        else:
            op = rand_op(rng, t, n, act)
            free = [i for i in range(n)
                    if t.cfg['objs'][i]['style'] == 'plain'
                    and not any(t.cfg['objs'][i]['setting'].values())]
            if free and rng.random() < 0.08:
                o = rng.choice(free)
                name = rng.choice(ATTRS)
                has = hasattr(t.driver.objs[o], t.driver.real(name))
                op = {'op': 'give', 'o': o + 1, 'name': name,
                      'val': '-' if has and rng.random() < 0.6
                      else rng.choice(VALUES)}
            if len(t.driver.groups) > 5 and op['op'] in (
                    'slice', 'add', 'addgroup', 'radd', 'mul', 'copy', 'or',
                    'fromkeys'):
                op = {'op': 'look'}
        t.do(op)
    return t


def group_list(rng, i, tier):
    return script(rng, ['list'], 0.35)


def group_map(rng, i, tier):
    return script(rng, ['map'], 0.35)


def group_act(rng, i, tier):
    return script(rng, ['list', 'map'], 0.75, 0.5)


SUITES = {'group_list': group_list, 'group_map': group_map,
          'group_act': group_act}


def walk_cfg(state, rng):
    # The objects of the model.
    return {'objs': [dict(o, style=rng.choice(['plain', 'property', 'raises']),
                          falsy=rng.random() < 0.4) for o in state['objs']]}


def walk_op(op, rng):
    op = dict(op, style=rng.choice(['', 'copy']))
    if op['op'] == 'do':
        op['args'] = ['int:1'] if op['val'] else []
    return op


def split(ev):
    import json
    op = {k: v for k, v in ev.items()
          if k not in ('out', 'err', 'calls', 'obs')}
    out = {k: ev[k] for k in ('out', 'err', 'calls')}
    return json.dumps(op, sort_keys=True), json.dumps(out, sort_keys=True), op


WALKS = {'group': {'driver': 'GroupDriver', 'cfg': walk_cfg, 'op': walk_op,
                   'split': split, 'length': 14}}
