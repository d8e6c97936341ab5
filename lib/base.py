"""What all drivers share: values as tokens, guarded calls, recording."""
import ast
import json
import random
import re
import signal
import warnings

PLAIN = re.compile(r'[A-Za-z]+\Z')
OP_SECONDS = 5.0
HANGS = []               # what did not come to an end


class Hang(BaseException):
    """An operation did not come back in time (of this process, so that
    what else runs has no influence)."""


def _alarm(signum, frame):
    raise Hang()


def install_alarm():
    signal.signal(signal.SIGVTALRM, _alarm)


class Twin:
    """Objects that look the same but are not equal."""

    def __init__(self, number):
        self.number = number

    def __repr__(self):
        return 'Twin'


class OddTwin(Twin):
    """The same, without a hash."""

    def __eq__(self, other):
        return type(other) is OddTwin and self.number == other.number

    __hash__ = None


TWINS = {'Twin': Twin, 'OddTwin': OddTwin}
MADE = {}


def enc(v):
    """Represents a Python value as a string, with its type."""
    if isinstance(v, Twin):
        return f'{type(v).__name__}:{v.number}'
    if type(v) is str and PLAIN.match(v):
        return v
    r = repr(v)
    if len(r) > 120:
        r = r[:120] + '...'
    return f'{type(v).__name__}:{r}'


def dec(t):
    """The Python value (a literal) that a string from enc stands for."""
    if ':' not in t:
        return t
    name, text = t.split(':', 1)
    if name in TWINS:
        if t not in MADE:
            MADE[t] = TWINS[name](int(text))
        return MADE[t]
    return ast.literal_eval(text)


class Equals:
    """Gives all values that are equal to each other the same token."""

    def __init__(self, vals):
        self.token = {}
        firsts = []
        for v in vals:
            same = [f for f in firsts if f is v or f == v]
            if not same:
                firsts.append(v)
            self.token[enc(v)] = enc((same or [v])[0])

    def __call__(self, v):
        t = enc(v)
        return self.token.get(t, t)


def attempt(fn, *args, **kwargs):
    """Calls fn; returns (result, '') or (None, name of the exception)."""
    signal.setitimer(signal.ITIMER_VIRTUAL, OP_SECONDS)
    try:
        res = fn(*args, **kwargs)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return res, ''
    except Hang:
        HANGS.append(fn)
        return None, 'Hang'
    except Exception as e:            # noqa: whatever the library raises
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return None, type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class Ledger:
    """The lists that were returned in a trace.

    A list that was returned before is not a new list, and one that has
    changed since (other than by scribble) does not belong to the caller."""

    current = None

    def __init__(self):
        self.kept = []          # (list, what it contained)
        self.scribbled = 0
        self.calls = 0

    def form(self):
        """How to write the next call: 0 for the shortest way."""
        self.calls += 1
        return self.calls % 5 if self.calls % 5 < 3 else 0

    def intact(self):
        for lst, was in self.kept:
            if len(lst) != len(was) or any(
                    a is not b for a, b in zip(lst, was)):
                return 'one, but a list returned earlier has changed'
        return ''

    def note(self, lst):
        if self.intact():
            return 'list, but one returned earlier has changed'
        if any(lst is old for old, _ in self.kept):
            return 'the same list as before'
        self.kept.append((lst, list(lst)))
        return 'list'

    def scribble(self, lst):
        """The caller changes a list that was returned."""
        self.scribbled += 1
        k = self.scribbled % 4
        if k == 1:
            lst[:] = ['scribbled'] * len(lst)
        elif k == 2:
            lst.append('scribbled')
            lst.reverse()
        elif k == 3:
            lst.clear()
        else:
            lst[:1] = ['scribbled', 'twice']
        self.kept = [(x, list(x) if x is lst else was)
                     for x, was in self.kept]


def scribble(lst):
    Ledger.current.scribble(lst)


def call_emitter(em, how, n):
    """Calls an emitter in one of the four public ways.

    Returns (shape, values, err, raw)."""
    named = Ledger.current.form()
    if how == 'one':
        res, err = attempt(em) if not named else \
            attempt(em, None) if named == 1 else attempt(em, number=None)
    elif how == 'emit':
        res, err = attempt(em.emit)
    elif how == 'many':
        res, err = attempt(em, number=n) if named == 1 else attempt(em, n)
    else:
        res, err = attempt(em.emit_many, number=n) if named == 1 else \
            attempt(em.emit_many, n)
    if err:
        return '', [], err, None
    if how in ('one', 'emit'):
        return Ledger.current.intact() or 'one', [res], '', res
    if type(res) is list:
        return Ledger.current.note(res), list(res), '', res
    try:
        vals = list(res)
    except TypeError:
        vals = [res]
    return type(res).__name__, vals, '', res


# Numbers of values around which batches might be cut.
BIG = [100, 127, 128, 129, 255, 256, 257, 500, 512, 513, 999, 1000, 1001,
       1023, 1024, 1025, 1500, 2048, 2049]


def geti(v):
    """An int for the specification, or a number that is never right."""
    if isinstance(v, bool) or not isinstance(v, int):
        return -999999
    return v if abs(v) < 2 ** 31 else -999998


def pick_how(rng):
    return rng.choice(['one', 'emit', 'many', 'many', 'many', 'emit_many'])


class Stop(Exception):
    """The driver cannot go on."""


class Trace:
    """A run of a driver: its configuration, operations and events."""

    last = None

    def __init__(self, driver_cls, cfg, label=''):
        Trace.last = self
        Ledger.current = self.ledger = Ledger()
        self.crash = ''
        self.cfg = cfg
        self.ops = []
        self.evs = []
        self.label = label
        self.driver = driver_cls(cfg)
        self.name = driver_cls.__name__

    def do(self, op):
        Ledger.current = self.ledger
        try:
            ev = self.driver.apply(op)
        except Exception as e:
            self.crash = f'{type(e).__name__}: {e} in {json.dumps(op)[:300]}'
            raise Stop() from e
        self.ops.append(op)
        self.evs.append(ev)
        return ev

    def dump(self):
        speccfg = getattr(self.driver, 'speccfg', self.cfg)
        return {'cfg': speccfg, 'evs': self.evs, 'crash': self.crash,
                'script': {'driver': self.name, 'cfg': self.cfg,
                           'ops': self.ops, 'label': self.label}}


def rnd(*key):
    """A random generator for a key, independent of the hash seed."""
    return random.Random('/'.join(str(k) for k in key))


def quiet_warnings():
    warnings.simplefilter('ignore')
