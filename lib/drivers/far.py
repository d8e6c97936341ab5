"""Drives real ranges with exact numbers of microseconds (spec/Far.tla)."""
import itertools
import sys
from datetime import date, datetime, time, timedelta, timezone

from base import Trace, attempt

from fauxdoc.dtrange import DateOrTimeRange, dtrange

US = timedelta(microseconds=1)
DAY = 86400 * 10 ** 6
FIRST = datetime(1, 1, 1)
LAST = (datetime.max - FIRST) // US
TYPES = {'date': date, 'naive': datetime, 'aware': datetime, 'time': time}
TZ = timezone(timedelta(hours=-3))
BASE = 10 ** 4
READ = 3


def limbs(n):
    out = []
    while n > 0:
        n, x = divmod(n, BASE)
        out.append(x)
    return out


def signed(n):
    return {'neg': n < 0, 'm': limbs(abs(n))}


def opt(x):
    return [] if x is None else [signed(x)]


NOT_A_VALUE = {'ok': False, 'v': [], 'q': []}


class FarDriver:
    spec = 'Far'

    def __init__(self, cfg):
        self.cfg = cfg
        self.speccfg = {'day': limbs(DAY)}
        self.regs = []                   # (range, kind)
        self.info = []                   # (kind, a, d, n), for the script

    def value(self, kind, us):
        if kind == 'time':
            return (FIRST + us * US).time()
        dt = FIRST + us * US
        if kind == 'date':
            return dt.date()
        return dt if kind == 'naive' else \
            dt.replace(tzinfo=timezone.utc).astimezone(TZ)

    def us(self, v, kind):
        """Microseconds of a value; or None for a value of another kind."""
        if type(v) is not TYPES[kind]:
            return None
        if kind == 'date':
            return (v.toordinal() - 1) * DAY
        if v.tzinfo != (TZ if kind == 'aware' else None):
            return None
        if kind == 'time':
            v = datetime.combine(FIRST, v)
        elif kind == 'aware':
            v = v.replace(tzinfo=None) - v.utcoffset()
        return (v - FIRST) // US

    def shown(self, v, i, at):
        """A value that is said to be at index at of range number i.

        The number of midnights is right if the value is."""
        kind, a, d, _ = self.info[i - 1]
        x = self.us(v, kind)
        if x is None or x < 0:
            return NOT_A_VALUE
        q = (a + at * d - x) // DAY if kind == 'time' else 0
        return {'ok': True, 'v': limbs(x), 'q': limbs(abs(q))}

    def apply(self, op):
        k = op['op']
        ev = {'op': k, 'i': op.get('i', 0), 'j': op.get('j', 0),
              'kind': op.get('kind', ''), 'a': limbs(op.get('a', 0)),
              'b': limbs(op.get('b', 0)), 'neg': op.get('d', 0) < 0,
              'd': limbs(abs(op.get('d', 0))), 'n': limbs(op.get('n', 0)),
              'sa': opt(op.get('sa')), 'sb': opt(op.get('sb')),
              'sc': opt(op.get('sc')), 'err': '', 'vals': [], 'rev': [],
              'max': READ, 'fresh': op.get('fresh', False),
              'first': NOT_A_VALUE, 'idx': signed(op.get('idx', 0)),
              'off': limbs(op.get('off', 0)), 'res': False, 'ne': False,
              'hash': False}
        if k in ('ctor', 'factory'):
            self.make(op, ev)
            return ev
        i = op['i']
        r, kind = self.regs[i - 1]
        _, a, d, n = self.info[i - 1]
        if k == 'slice':
            slc = slice(op.get('sa'), op.get('sb'), op.get('sc'))
            res, ev['err'] = attempt(r.__getitem__, slc)
            if not ev['err']:
                want = range(n)[slc]
                m = len(res)
                ev['n'] = limbs(m)
                if m:
                    first = want.start if want else 0
                    ev['first'] = self.shown(res.start, i, first)
                    ev['a'] = ev['first']['v']
                self.regs.append((res, kind))
                x = self.us(res.start, kind)
                self.info.append((kind, x if m and x is not None else a,
                                  d * ((op.get('sc') or 1) if m > 1 else 1), m))
        elif k == 'get':
            res, ev['err'] = attempt(r.__getitem__, op['idx'])
            if not ev['err']:
                at = op['idx'] + (n if op['idx'] < 0 else 0)
                ev['vals'] = [self.shown(res, i, at)]
        elif k == 'read':
            res, ev['err'] = attempt(lambda: (
                len(r), list(itertools.islice(iter(r), READ)),
                list(itertools.islice(reversed(r), READ))))
            if not ev['err']:
                ev['n'] = limbs(res[0])
                ev['vals'] = [self.shown(v, i, j)
                              for j, v in enumerate(res[1])]
                ev['rev'] = [self.shown(v, i, n - 1 - j)
                             for j, v in enumerate(res[2])]
        elif k == 'stop':
            res, ev['err'] = attempt(lambda: r.stop)
            if not ev['err']:
                ev['vals'] = [self.shown(res, i, n)]
        elif k in ('in', 'count', 'index'):
            x = a + op['idx'] * d + op['off'] * (1 if d > 0 else -1)
            v = self.value(kind, x % DAY if kind == 'time' else x)
            if k == 'in':
                res, ev['err'] = attempt(lambda: v in r)
                ev['res'] = bool(res)
            elif k == 'count':
                res, ev['err'] = attempt(r.count, v)
                ev['n'] = limbs(res or 0)
            else:
                res, ev['err'] = attempt(r.index, v, op.get('sa'),
                                         op.get('sb'))
                ev['n'] = limbs(res or 0)
        elif k == 'eq':
            q = self.regs[op['j'] - 1][0]
            res, ev['err'] = attempt(lambda: (r == q, r != q,
                                              hash(r) == hash(q)))
            if not ev['err']:
                ev['res'], ev['ne'], ev['hash'] = map(bool, res)
        return ev

    def make(self, op, ev):
        kind, d = op['kind'], op['d']
        a = self.value(kind, op['a'])
        if op['op'] == 'ctor':
            n = op['n']
            r, ev['err'] = attempt(DateOrTimeRange, a, n, d * US)
        else:
            b = self.value(kind, op['b'])
            if op.get('text'):
                a, b = a.isoformat(), b.isoformat()
            r, ev['err'] = attempt(dtrange, a, b, d // op['size'],
                                   op['unit'])
            n = 0
            if not ev['err']:
                n = len(r)
                ev['n'] = limbs(n)
        if not ev['err']:
            self.regs.append((r, kind))
            self.info.append((kind, op['a'], d, n))


UNITS = [('microseconds', 1), ('milliseconds', 1000), ('seconds', 10 ** 6),
         ('minutes', 60 * 10 ** 6), ('hours', 3600 * 10 ** 6), ('days', DAY),
         ('weeks', 7 * DAY)]


class Script:
    def __init__(self, rng):
        self.rng = rng
        self.t = Trace(FarDriver, {})
        self.d = self.t.driver

    def instant(self, kind):
        r = self.rng
        lo, hi = (DAY, LAST - DAY) if kind == 'aware' else (0, LAST)
        x = r.choice([lo, hi, r.randrange(lo, hi), r.randrange(lo, hi),
                      719162 * DAY + r.randrange(10 ** 15),
                      r.randrange(lo, hi) // DAY * DAY])
        x = min(x, hi)
        if kind == 'date':
            x = x // DAY * DAY
        return x % DAY if kind == 'time' else x

    def step(self, kind):
        r = self.rng
        if kind == 'date':
            d = DAY * r.choice([1, 1, 2, 7, 365, r.randrange(1, 10 ** 4)])
        elif kind == 'time':
            d = r.choice([1, 7, 1000, 86399999999, r.randrange(1, DAY),
                          r.randrange(1, 10 ** 6), 43199999999])
        else:
            d = r.choice([1, 1, 3, 7, 999999, 10 ** 6 + 1, 333333,
                          r.randrange(1, 10 ** 9), r.randrange(1, 10 ** 14),
                          86400 * 10 ** 6 + 1])
        return d if r.random() < 0.7 else -d

    def make(self):
        r = self.rng
        kind = r.choice(['naive', 'naive', 'aware', 'date', 'time'])
        a, b, d = self.instant(kind), self.instant(kind), self.step(kind)
        if r.random() < 0.8 and (b > a) != (d > 0):
            d = -d
        if r.random() < 0.6:
            us = [u for u in UNITS if d % u[1] == 0
                  and (u[0] != 'weeks' or kind != 'date'
                       or d % (7 * DAY) == 0)]
            unit, size = r.choice(us)
            self.t.do({'op': 'factory', 'kind': kind, 'a': a, 'b': b, 'd': d,
                       'unit': unit, 'size': size, 'text': r.random() < 0.3})
            if r.random() < 0.6 and len(self.d.regs):
                self.t.do({'op': 'read', 'i': len(self.d.regs),
                           'fresh': True})
        else:
            if kind == 'time':
                days = r.choice([1, 3, 3, 10 ** 6, 4 * 10 ** 6, 999999990])
                n = r.choice([days * DAY // abs(d),
                              r.randrange(days * DAY // abs(d) + 2)])
                n = min(n, sys.maxsize)   # len() cannot be more
            else:
                # Everything up to stop has to be in the calendar.
                hi = LAST - 2 * DAY
                room = (hi - a) if d > 0 else a - 2 * DAY
                room = max(0, room) // abs(d)
                n = r.choice([room, r.randrange(room + 1),
                              min(room, r.randrange(10))])
            self.t.do({'op': 'ctor', 'kind': kind, 'a': a, 'd': d, 'n': n})

    def pick(self):
        return self.rng.randrange(len(self.d.regs)) + 1

    def idx(self, n):
        r = self.rng
        k = r.choice([0, -1, n - 1, -n, r.randrange(n + 1),
                      -r.randrange(n + 1), n // 2, 10 ** 16 + 3])
        return k if r.random() < 0.9 else r.choice([n, -n - 1, n + 10 ** 9])

    def get(self):
        i = self.pick()
        self.t.do({'op': 'get', 'i': i, 'idx': self.idx(self.d.info[i - 1][3])})

    def slice(self):
        r = self.rng
        i = self.pick()
        kind, a, d, n = self.d.info[i - 1]
        op = {'op': 'slice', 'i': i}
        for x in ('sa', 'sb'):
            if r.random() < 0.7:
                op[x] = self.idx(n)
        if r.random() < 0.7:
            op['sc'] = r.choice([1, -1, 2, -2, 7, r.randrange(1, n + 2),
                                 -r.randrange(1, n + 2), 10 ** 4, 10 ** 8])
        want = range(n)[slice(op.get('sa'), op.get('sb'), op.get('sc'))]
        if kind == 'time' and len(want) > 1 and \
                abs(d * (op.get('sc') or 1)) >= DAY:
            return                      # a known finding
        self.t.do(op)

    def read(self):
        self.t.do({'op': 'read', 'i': self.pick()})

    def stop(self):
        i = self.pick()
        kind, a, d, n = self.d.info[i - 1]
        if kind != 'time' and not 2 * DAY <= a + d * n <= LAST - 2 * DAY:
            return
        self.t.do({'op': 'stop', 'i': i})

    def find(self):
        r = self.rng
        i = self.pick()
        kind, a, d, n = self.d.info[i - 1]
        if kind == 'time' and n * abs(d) > DAY:
            return                      # values may be there again
        idx = max(0, min(self.idx(n) % (n + 1), n))
        off = r.choice([0, 0, 0, 1, abs(d) - 1, r.randrange(abs(d))])
        off %= abs(d)
        if kind == 'date':
            off = off // DAY * DAY
        x = a + idx * d + (off if d > 0 else -off)
        if kind == 'time':
            if abs(x - a) >= DAY:
                return
        elif not 2 * DAY <= x <= LAST - 2 * DAY:
            return
        op = {'op': r.choice(['in', 'count', 'index']), 'i': i, 'idx': idx,
              'off': off}
        if op['op'] == 'index' and r.random() < 0.5:
            op['sa'] = r.choice([None, idx, idx + 1, idx - 1, self.idx(n)])
            op['sb'] = r.choice([None, idx, idx + 1, self.idx(n)])
        self.t.do(op)

    def eq(self):
        r = self.rng
        i = self.pick()
        kind, a, d, n = self.d.info[i - 1]
        if r.random() < 0.3:
            return self.t.do({'op': 'eq', 'i': i, 'j': self.pick()})
        k = r.random()
        if k < 0.15:
            n = max(0, n - 1)
        elif k < 0.3 and kind != 'date':
            d += 1 if d > 0 else -1
            n = min(n, 5)
        elif k < 0.4 and a > 10 * DAY and kind == 'naive':
            a -= 1
        elif k < 0.5 and kind == 'time':
            d = d - DAY if d > 0 else d + DAY
        if kind == 'time' and (abs(d) >= DAY
                               or n * abs(d) > 999999990 * DAY) or d == 0:
            return                     # no timedelta is that long
        if kind != 'time' and n and not 0 <= a + d * (n - 1) <= LAST - DAY:
            return
        self.t.do({'op': 'ctor', 'kind': kind, 'a': a, 'd': d, 'n': n})
        self.t.do({'op': 'eq', 'i': i, 'j': len(self.d.regs)})


def run(rng, names, n):
    s = Script(rng)
    while not s.d.regs:
        s.make()
    for _ in range(n):
        getattr(s, rng.choice(names))()
    return s.t


def far_seq(rng, i, tier):
    return run(rng, ['make', 'get', 'get', 'get', 'slice', 'slice', 'slice',
                     'read', 'stop'], rng.randrange(5, 15))


def far_find(rng, i, tier):
    return run(rng, ['make', 'find', 'find', 'find', 'find', 'slice', 'eq',
                     'eq'], rng.randrange(5, 15))


def far_factory(rng, i, tier):
    return run(rng, ['make', 'make', 'make', 'read', 'stop', 'get'],
               rng.randrange(3, 10))


SUITES = {'far_seq': far_seq, 'far_find': far_find,
          'far_factory': far_factory}
