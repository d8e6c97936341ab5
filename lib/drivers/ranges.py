"""Drives real date/time ranges (spec/Range.tla)."""
import itertools
from datetime import date, datetime, time, timedelta, timezone

from base import Trace, attempt, geti

from fauxdoc.dtrange import DateOrTimeRange, dtrange

US = timedelta(microseconds=1)
DAY = 86400 * 10 ** 6
BIG = 10 ** 9
MAX = 50
UNITS = {'weeks': 7 * DAY, 'days': DAY, 'hours': 3600 * 10 ** 6,
         'minutes': 60 * 10 ** 6, 'seconds': 10 ** 6, 'milliseconds': 1000,
         'microseconds': 1}
TZS = {'': None, 'utc': timezone.utc,
       'in': timezone(timedelta(hours=5, minutes=30)),
       'w': timezone(timedelta(hours=-8), 'West')}
KINDS = ['date', 'naive', 'aware', 'time', 'atime']

BAD_CTOR = {
    'start str': lambda: (DateOrTimeRange, '2020-01-01', 5, timedelta(1)),
    'start none': lambda: (DateOrTimeRange, None, 5, timedelta(1)),
    'start td': lambda: (DateOrTimeRange, timedelta(1), 5, timedelta(1)),
    'start type': lambda: (DateOrTimeRange, date, 5, timedelta(1)),
    'step int': lambda: (DateOrTimeRange, date(2020, 1, 1), 5, 1),
    'step none': lambda: (DateOrTimeRange, date(2020, 1, 1), 5, None),
    'step time': lambda: (DateOrTimeRange, time(1), 5, time(1)),
    'date half': lambda: (DateOrTimeRange, date(2020, 1, 1), 5,
                          timedelta(hours=12)),
    'date neg': lambda: (DateOrTimeRange, date(2020, 1, 1), 5,
                         timedelta(hours=-36)),
    'date sec': lambda: (DateOrTimeRange, date(2020, 1, 1), 5,
                         timedelta(days=1, seconds=1)),
    'date us': lambda: (DateOrTimeRange, date(2020, 1, 1), 5,
                        timedelta(days=2, microseconds=1)),
    'date far us': lambda: (DateOrTimeRange, date(2020, 1, 1), 1,
                            timedelta(days=200000, microseconds=1)),
    'date far -us': lambda: (DateOrTimeRange, date(2020, 1, 1), 0,
                             timedelta(days=-10 ** 8, microseconds=-1)),
    'date far ms': lambda: (DateOrTimeRange, date(2020, 1, 1), 1,
                            timedelta(days=10 ** 6, microseconds=7)),
    'time day': lambda: (DateOrTimeRange, time(1), 5, timedelta(1)),
    'time -day': lambda: (DateOrTimeRange, time(1), 5, timedelta(-1)),
    'time 30h': lambda: (DateOrTimeRange, time(1), 5, timedelta(hours=30)),
    'time -30h': lambda: (DateOrTimeRange, time(1), 5, timedelta(hours=-30)),
    'length': lambda: (DateOrTimeRange, date(2020, 1, 1), 'abc',
                       timedelta(1)),
    'length none': lambda: (DateOrTimeRange, date(2020, 1, 1), None,
                            timedelta(1)),
    'zero': lambda: (DateOrTimeRange, datetime(2020, 1, 1), 5, timedelta(0)),
    'zero time': lambda: (DateOrTimeRange, time(3), 5, timedelta(0)),
}
BAD_FACTORY = {
    'start': lambda: (dtrange, 'not a date', '2020-01-05'),
    'start slash': lambda: (dtrange, '2020/01/01', '2020-01-05'),
    'start int': lambda: (dtrange, 20200101, '2020-01-05'),
    'start none': lambda: (dtrange, None, '2020-01-05'),
    'stop': lambda: (dtrange, '2020-01-05', 'x'),
    'stop none': lambda: (dtrange, '2020-01-05', None),
    'stop range': lambda: (dtrange, '2020-01-05', '2020-02-30'),
    'types': lambda: (dtrange, date(2020, 1, 1), datetime(2020, 1, 5)),
    'types2': lambda: (dtrange, datetime(2020, 1, 1), date(2020, 1, 5)),
    'types3': lambda: (dtrange, time(1), datetime(2020, 1, 5)),
    'types4': lambda: (dtrange, '10:00', '2020-01-05'),
    'types5': lambda: (dtrange, '2020-01-01', '2020-01-05T00:00:00'),
    'unit': lambda: (dtrange, '2020-01-01', '2020-01-05', 1, 'day'),
    'unit2': lambda: (dtrange, '2020-01-01', '2020-01-05', 1, 'fortnights'),
    'unit3': lambda: (dtrange, '10:00', '11:00', 1, 'years'),
    'unit empty': lambda: (dtrange, '10:00', '11:00', 1, ''),
    'step str': lambda: (dtrange, '2020-01-01', '2020-01-05', 'x'),
    'date hours': lambda: (dtrange, '2020-01-01', '2020-01-05', 12, 'hours'),
    'date half': lambda: (dtrange, '2020-01-01', '2020-01-05', 1.5),
    'date far': lambda: (dtrange, '2020-01-01', '2020-01-05',
                         86400 * 10 ** 6 * 300000 + 1, 'microseconds'),
    'time day': lambda: (dtrange, '10:00', '11:00', 1, 'days'),
    'time week': lambda: (dtrange, '10:00', '11:00', -1, 'weeks'),
    'time 24h': lambda: (dtrange, '10:00', '10:00', 24, 'hours'),
    'zero': lambda: (dtrange, '2020-01-01', '2020-01-05', 0),
    'zero2': lambda: (dtrange, '10:00', '11:00', 0, 'hours'),
    'zero3': lambda: (dtrange, '10:00', '10:00', 0),
    'aware': lambda: (dtrange, datetime(2020, 1, 1),
                      datetime(2020, 1, 2, tzinfo=timezone.utc)),
}


class OwnRange(DateOrTimeRange):
    """A type of range that users might have made."""


class RangesDriver:
    """cfg: tt, td: microseconds of a tick for times and datetimes;
    day: ticks of a day, or 0 if times never get past midnight;
    base, tbase: ISO strings of the datetime and time that are 0."""
    spec = 'Range'

    def __init__(self, cfg):
        self.cfg = cfg
        self.speccfg = {'day': cfg['day']}
        self.base = datetime.fromisoformat(cfg['base'])
        self.regs = []             # (range, kind, tz)

    # ------------------------------------------------------------- values

    def tick(self, kind):
        return {'date': DAY, 'naive': self.cfg['td'],
                'aware': self.cfg['td']}.get(kind, self.cfg['tt'])

    def wraps(self, kind):
        return kind in ('time', 'atime') and self.cfg['day'] > 0

    def value(self, kind, tz, x, us=0):
        """Number x of ticks (and some microseconds) as a value."""
        delta = x * self.tick(kind) * US + us * US
        if kind == 'date':
            return (self.base + delta).date()
        if kind == 'naive':
            return self.base + delta
        if kind == 'aware':
            return (self.base.replace(tzinfo=timezone.utc)
                    + delta).astimezone(TZS[tz])
        t = time.fromisoformat(self.cfg['tbase'])
        ref = datetime.combine(date(2001, 1, 1), t) + delta
        return ref.time() if kind == 'time' else \
            ref.time().replace(tzinfo=TZS[tz])

    def ticks(self, v, kind, tz):
        """[x], or [] for something that is no value of the kind."""
        typ = {'date': date, 'naive': datetime,
               'aware': datetime}.get(kind, time)
        if type(v) is not typ:
            return []
        if kind != 'date' and v.tzinfo != TZS[tz if kind in (
                'aware', 'atime') else '']:
            return []
        if kind == 'date':
            return [v.toordinal() - self.base.date().toordinal()]
        if kind == 'naive':
            d = v - self.base
        elif kind == 'aware':
            d = v - self.base.replace(tzinfo=timezone.utc)
        else:
            t = time.fromisoformat(self.cfg['tbase'])
            d = (datetime.combine(date(2001, 1, 1), v.replace(tzinfo=None))
                 - datetime.combine(date(2001, 1, 1), t))
            if not self.cfg['day']:
                if d > timedelta(hours=12):
                    d -= timedelta(1)
                elif d < timedelta(hours=-12):
                    d += timedelta(1)
        us = d // US
        if us % self.tick(kind):
            return []
        x = us // self.tick(kind)
        if self.wraps(kind):
            x %= self.cfg['day']
        return [x] if abs(x) <= 2 * BIG else []

    def delta(self, kind, d):
        return d * self.tick(kind) * US

    # --------------------------------------------------------------- ops

    def apply(self, op):
        k = op['op']
        ev = {'op': k, 'i': op.get('i', 0), 'j': op.get('j', 0),
              'kind': op.get('kind', ''), 'wrap': False, 'a': op.get('a', 0),
              'b': op.get('b', 0), 'd': op.get('d', 1), 'n': op.get('n', 0),
              'sa': op.get('sa', []), 'sb': op.get('sb', []),
              'sc': op.get('sc', []), 'good': True, 'err': '', 'vals': [],
              'rev': [], 'max': MAX, 'fresh': False, 'same': True,
              'start': [], 'step': [], 'x': op.get('x', ''),
              'v': op.get('v', 0), 'res': False, 'ne': False, 'hash': False}
        if k in ('ctor', 'factory'):
            self.make(op, ev)
            return ev
        r, kind, tz = self.regs[op['i'] - 1]
        if k == 'slice':
            slc = slice(*[self.big(op[n]) for n in ('sa', 'sb', 'sc')])
            res, ev['err'] = attempt(r.__getitem__, slc)
            if not ev['err']:
                ev['same'] = type(res) is type(r)
                self.regs.append((res, kind, tz))
        elif k == 'get':
            res, ev['err'] = attempt(r.__getitem__,
                                     self.big([op['n']]))
            if not ev['err']:
                ev['vals'] = [self.ticks(res, kind, tz)]
        elif k == 'badget':
            _, ev['err'] = attempt(r.__getitem__, {
                'str': 'a', 'float': 1.0, 'none': None,
                'tuple': (0, 1)}[op['x']])
        elif k == 'read':
            ev['fresh'] = op.get('fresh', False)
            n, ev['err'] = attempt(len, r)
            if not ev['err']:
                ev['n'] = geti(n)
                vals, ev['err'] = attempt(
                    lambda: list(itertools.islice(iter(r), MAX + 1)))
            if not ev['err']:
                rev, ev['err'] = attempt(
                    lambda: list(itertools.islice(reversed(r), MAX + 1)))
            if not ev['err']:
                if n > MAX:
                    vals, rev = vals[:MAX], rev[:MAX]
                ev['vals'] = [self.ticks(v, kind, tz) for v in vals]
                ev['rev'] = [self.ticks(v, kind, tz) for v in rev]
        elif k == 'stop':
            res, ev['err'] = attempt(lambda: (r.stop, r.start, r.step))
            if not ev['err']:
                ev['vals'] = [self.ticks(res[0], kind, tz)]
                ev['start'] = self.ticks(res[1], kind, tz)
                us, t = res[2] // US, self.tick(kind)
                ev['step'] = [] if us % t or abs(us // t) > 2 * BIG else \
                    [us // t]
        elif k in ('in', 'count', 'index'):
            v, alien = self.query(op, kind, tz)
            ev['x'] = 'alien' if alien else ''
            if self.wraps(kind):
                ev['v'] %= self.cfg['day']
            if k == 'in':
                res, ev['err'] = attempt(lambda: v in r)
                ev['res'] = bool(res)
            elif k == 'count':
                res, ev['err'] = attempt(r.count, v)
                ev['n'] = geti(res) if not ev['err'] else 0
            else:
                a, b = self.big(op.get('sa', [])), self.big(op.get('sb', []))
                if op.get('kw'):
                    res, ev['err'] = attempt(r.index, v, start=a, stop=b)
                elif b is not None:
                    res, ev['err'] = attempt(r.index, v, a, b)
                elif a is not None:
                    res, ev['err'] = attempt(r.index, v, a)
                else:
                    res, ev['err'] = attempt(r.index, v)
                ev['n'] = geti(res) if not ev['err'] else 0
        elif k == 'eq':
            q = self.regs[op['j'] - 1][0]
            res, ev['err'] = attempt(lambda: (r == q, r != q,
                                              hash(r) == hash(q)))
            if not ev['err']:
                ev['res'], ev['ne'], ev['hash'] = map(bool, res)
        elif k == 'eq_other':
            q = {'list': list(itertools.islice(iter(r), 5)), 'none': None,
                 'range': range(len(r)), 'str': 'x', 'start': r.start,
                 'type': type(r)}[op['x']]
            res, ev['err'] = attempt(lambda: (r == q, r != q))
            if not ev['err']:
                ev['res'], ev['ne'] = map(bool, res)
        elif k == 'set':
            v = {'start': self.value(kind, tz, 3), 'length': 3,
                 'step': self.delta(kind, 2),
                 'stop': self.value(kind, tz, 5)}[op['x']]
            if op.get('same'):
                v = getattr(r, op['x'])
            _, ev['err'] = attempt(setattr, r, op['x'], v)
        return ev

    def big(self, a):
        if not a:
            return None
        return a[0] * 10 ** 12 if abs(a[0]) >= BIG else a[0]

    def make(self, op, ev):
        k, kind, tz = op['op'], op.get('kind', ''), op.get('tz', '')
        if op.get('bad'):
            ev['good'] = False
            fn, *args = (BAD_CTOR if k == 'ctor' else
                         BAD_FACTORY)[op['bad']]()
            _, ev['err'] = attempt(fn, *args)
            return
        ev['wrap'] = self.wraps(kind)
        if ev['wrap']:
            ev['a'] %= self.cfg['day']
            ev['b'] %= self.cfg['day']
        a = self.value(kind, tz, op['a'])
        if k == 'ctor':
            n = {'str': str, 'float': float}.get(op.get('form'), int)(op['n'])
            r, ev['err'] = attempt(
                OwnRange if op.get('own') else DateOrTimeRange, a, n,
                self.delta(kind, op['d']))
        else:
            b = self.stop_value(op)
            if 'a' in op.get('form', ''):
                a = a.isoformat()
            if 'b' in op.get('form', ''):
                b = b.isoformat()
            us, unit = op['d'] * self.tick(kind), op['unit']
            default = 'days' if kind == 'date' else 'seconds'
            size = UNITS[unit or default]
            step = us // size if us % size == 0 else us / size
            if step == 1 and unit is None and op.get('omit'):
                r, ev['err'] = attempt(dtrange, a, b)
            elif unit is None:
                r, ev['err'] = attempt(dtrange, a, b, step)
            elif op.get('omit'):
                r, ev['err'] = attempt(dtrange, a, b, step=step,
                                       step_unit=unit)
            else:
                r, ev['err'] = attempt(dtrange, a, b, step, unit)
            if unit == 'weeks' or us % size:
                # Floats and weeks have to give just the step meant.
                assert timedelta(**{unit or default: step}) == us * US
        if not ev['err']:
            self.regs.append((r, kind, tz))

    def stop_value(self, op):
        return self.value(op['kind'], op.get('tz', ''), op['b'])

    def query(self, op, kind, tz):
        """The value to look for, and whether it is no value of the kind."""
        x = op.get('x', '')
        v = op['v']
        if x == '':
            if kind == 'aware' and op.get('tz'):
                tz = op['tz']
            return self.value(kind, tz, v), False
        if x == 'off':
            return (self.value(kind, tz, v, 1), True) \
                if self.tick(kind) > 1 and kind != 'date' else (None, True)
        if x in KINDS:
            if x == kind:
                return None, True
            return self.value(x, 'utc', v), True
        return {'none': None, 'int': v, 'str': str(self.value(kind, tz, v)),
                'delta': timedelta(v % 100), 'list': [], 'obj': object(),
                'float': 1.5, 'range': self.regs[op['i'] - 1][0],
                'nan': float('nan')}[x], True


# ---------------------------------------------------------------- suites

TIME_TICKS = [3600 * 10 ** 6, 3600 * 10 ** 6, 1800 * 10 ** 6, 60 * 10 ** 6,
              10 ** 6, 10 ** 4]
DT_TICKS = [1, 1000, 10 ** 6, 10 ** 6, 60 * 10 ** 6, 3600 * 10 ** 6, DAY,
            DAY // 4, 250, 1250]
BASES = ['2020-02-27T23:59:58', '1999-12-31T22:00:00', '2016-01-01T00:00:00',
         '1969-12-31T23:59:59.999999', '2023-06-15T12:34:56.789012']
TBASES = ['00:00:00', '00:00:00', '22:30:00', '23:59:59.999999',
          '11:11:11.100000']


class Script:
    def __init__(self, rng, kinds=None):
        self.rng = rng
        tt = rng.choice(TIME_TICKS)
        day = DAY // tt
        if rng.random() < 0.12:
            tt, day = rng.choice([1, 1, 250, 1250]), 0
        self.day = day
        cfg = {'tt': tt, 'day': day, 'td': rng.choice(DT_TICKS),
               'base': rng.choice(BASES), 'tbase': rng.choice(TBASES)}
        self.t = Trace(RangesDriver, cfg)
        self.d = self.t.driver
        self.kinds = kinds or rng.choice(
            [[k] for k in KINDS] + [['time']] + [KINDS])
        self.info = []             # (kind, tz)
        self.zone = rng.choice(['utc', 'in', 'w'])

    def do(self, **op):
        return self.t.do(op)

    def wraps(self, kind):
        return self.d.wraps(kind)

    def near(self):
        r = self.rng
        return r.choice([r.randrange(-5, 30), r.randrange(-60, 60), 0])

    def step(self, kind):
        r = self.rng
        d = r.choice([1, 1, 1, 2, 3, 5, 7, r.randrange(1, 30)])
        if self.wraps(kind):
            if r.random() < 0.3:
                d = r.randrange(1, self.day)
            d = min(d, self.day - 1)
        if kind == 'date' and r.random() < 0.1:
            d = r.choice([7, 14, 365])
        return d if r.random() < 0.6 else -d

    def tz(self, kind):
        if kind == 'atime':
            return self.zone           # times of other zones are not equal
        return self.rng.choice(['utc', 'utc', 'in', 'w'])

    def ctor(self, kind=None):
        r = self.rng
        kind = kind or r.choice(self.kinds)
        d = self.step(kind)
        n = r.choice([0, 1, 2, 3, 5, 8, r.randrange(30), r.randrange(100)])
        if r.random() < 0.05:
            n = r.randrange(1000, 30000)
        if self.d.tick(kind) >= 60 * 10 ** 6 and not self.wraps(kind):
            n = min(n, 300)
        if self.wraps(kind) and r.random() < 0.7:
            n = min(n, self.day // abs(d))
        elif self.wraps(kind) and self.day <= 1440:
            n = r.choice([1, 1, 2, 3]) * self.day // abs(d) + \
                r.choice([0, 0, 1, -1, 5])
            n = max(n, 0)
        if abs(d) * n > BIG // 2:
            n = (BIG // 2) // abs(d)
        tz = self.tz(kind)
        self.do(op='ctor', kind=kind, tz=tz, a=self.near(), d=d, n=n,
                form=r.choice(['int', 'int', 'int', 'str', 'float']),
                own=r.random() < 0.15)
        self.info.append([kind, tz])

    def units(self, kind, d):
        """Units in which a step can be given exactly."""
        us = d * self.d.tick(kind)
        out = []
        for u, size in UNITS.items():
            step = us // size if us % size == 0 else us / size
            if abs(step) < 10 ** 9 and timedelta(**{u: step}) == us * US:
                out.append(u)
                if us % size:
                    out.append(u)      # fractions of a unit
        default = 'days' if kind == 'date' else 'seconds'
        if default in out:
            out += [None] * 3
        return out

    def factory(self, kind=None):
        r = self.rng
        kind = kind or r.choice(self.kinds)
        for _ in range(20):
            d = self.step(kind)
            us = self.units(kind, d)
            if us:
                break
        else:
            return self.ctor(kind)
        a = self.near()
        n = r.choice([0, 0, 1, 1, 2, 3, 7, r.randrange(30)])
        k = r.random()
        b = a + n * d
        if k < 0.3:
            b += r.randrange(abs(d)) * (1 if d > 0 else -1)
        elif k < 0.4 and (not self.wraps(kind) or self.day < 10 ** 6):
            b = a + r.randrange(-20, 20)
        window = kind in ('time', 'atime') and not self.wraps(kind)
        if window and (b == a or (b > a) != (d > 0)):
            b = a + d
        if self.wraps(kind):
            if r.random() < 0.15:
                b = a
            if abs(d) < self.day // 10 ** 6:
                b = a + n * d
        tz = self.tz(kind)
        self.do(op='factory', kind=kind, tz=tz, a=a, b=b, d=d,
                unit=r.choice(us), form=r.choice(['', '', 'a', 'b', 'ab']),
                omit=r.random() < 0.4)
        self.info.append([kind, tz])
        if r.random() < 0.8:
            self.do(op='read', i=len(self.info), fresh=True)

    def make(self):
        if self.rng.random() < 0.5:
            self.ctor()
        else:
            self.factory()

    def pick(self):
        if self.rng.random() < 0.4:
            return len(self.info)
        return self.rng.randrange(len(self.info)) + 1

    def reg(self, i):
        return self.d.regs[i - 1][0]

    def lim(self, n, wide=True):
        r = self.rng
        k = r.random()
        if k < 0.25:
            return []
        if k < 0.85:
            return [r.randrange(-n - 2, n + 3)]
        if k < 0.95 or not wide:
            return [r.choice([0, -1, 1, n, -n, n - 1, n + 1])]
        return [r.choice([BIG, -BIG])]

    def slice(self):
        r = self.rng
        i = self.pick()
        rg = self.reg(i)
        n = len(rg)
        c = r.choice([[], [], [1], [-1], [2], [-2], [3], [-3],
                      [r.randrange(-6, 7)], [BIG], [-BIG]])
        a, b = self.lim(n), self.lim(n)
        kind = self.info[i - 1][0]
        if c and c[0]:
            cc = c[0] * 10 ** 12 if abs(c[0]) >= BIG else c[0]
            m = len(range(n)[slice(self.d.big(a), self.d.big(b), cc)])
            if m >= 2 and kind in ('time', 'atime') and \
                    abs(rg.step * cc) >= timedelta(1):
                return                     # a known finding
        ev = self.do(op='slice', i=i, sa=a, sb=b, sc=c)
        if not ev['err']:
            self.info.append(list(self.info[i - 1]))

    def get(self):
        r = self.rng
        i = self.pick()
        n = len(self.reg(i))
        k = r.choice([r.randrange(-n - 1, n + 2), 0, -1, n, -n, -n - 1,
                      n - 1, BIG, -BIG])
        self.do(op='get', i=i, n=k)

    def look_for(self, kinds=('in', 'count', 'index')):
        r = self.rng
        i = self.pick()
        rg = self.reg(i)
        n = len(rg)
        kind, tz = self.info[i - 1]
        k = r.random()
        op = {'op': r.choice(kinds), 'i': i, 'x': ''}
        v = None
        if k < 0.6 and n:
            x = self.d.ticks(rg[r.randrange(n)], kind, tz)
            v = x[0] if x else None
            if v is not None and r.random() < 0.25:
                v += r.choice([1, -1, 2, -2])
        if v is None:
            v = self.near()
        if k > 0.8:
            op['x'] = r.choice(['off'] + KINDS + [
                'none', 'int', 'str', 'delta', 'list', 'obj', 'float',
                'range', 'nan'])
        elif kind == 'aware':
            op['tz'] = r.choice(['utc', 'in', 'w'])
        if op['op'] == 'index':
            if r.random() < 0.6:
                op['sa'], op['sb'] = self.lim(n), self.lim(n)
            op['kw'] = r.random() < 0.3
        self.do(**dict(op, v=v))

    def eq(self):
        r = self.rng
        if r.random() < 0.1:
            return self.do(op='eq_other', i=self.pick(), x=r.choice(
                ['list', 'none', 'range', 'str', 'start', 'type']))
        i = self.pick()
        if r.random() < 0.4:
            j = r.randrange(len(self.info)) + 1
        else:
            j = self.similar(i)
        self.do(op='eq', i=i, j=j)

    def similar(self, i):
        """Another range with (almost) the same values, made otherwise."""
        r = self.rng
        rg = self.reg(i)
        kind, tz = self.info[i - 1]
        n = len(rg)
        start = self.d.ticks(rg.start, kind, tz)
        us = rg.step // US
        if not start or us % self.d.tick(kind):
            return i
        a, d = start[0], us // self.d.tick(kind)
        k = r.random()
        if kind == 'aware' and r.random() < 0.5:
            tz = self.tz(kind)
        if k < 0.1:
            a += 1
        elif k < 0.2:
            d += 1
        elif k < 0.3:
            n = max(0, n + r.choice([1, -1]))
        elif k < 0.5 and n <= 1:
            d = self.step(kind)
        elif k < 0.7 and self.wraps(kind):
            d = d - self.day if d > 0 else d + self.day
        if k > 0.9:
            # The same backwards, twice.
            self.do(op='slice', i=i, sa=[], sb=[], sc=[-1])
            self.info.append(list(self.info[i - 1]))
            j = len(self.info)
            if r.random() < 0.7:
                self.do(op='slice', i=j, sa=[], sb=[], sc=[-1])
                self.info.append(list(self.info[i - 1]))
            return len(self.info)
        if d == 0 or (self.wraps(kind) and abs(d) >= self.day) or \
                abs(d) * n > BIG // 2:
            return i
        self.do(op='ctor', kind=kind, tz=tz, a=a, d=d, n=n,
                own=r.random() < 0.3)
        self.info.append([kind, tz])
        return len(self.info)

    def bad(self):
        r = self.rng
        if r.random() < 0.5:
            self.do(op='ctor', bad=r.choice(sorted(BAD_CTOR)))
        else:
            self.do(op='factory', bad=r.choice(sorted(BAD_FACTORY)))

    def set(self):
        self.do(op='set', i=self.pick(), same=self.rng.random() < 0.3,
                x=self.rng.choice(['start', 'stop', 'step', 'length']))

    def badget(self):
        self.do(op='badget', i=self.pick(),
                x=self.rng.choice(['str', 'float', 'none', 'tuple']))

    def read(self):
        self.do(op='read', i=self.pick())

    def stop(self):
        self.do(op='stop', i=self.pick())


def run(rng, ops, n, kinds=None):
    s = Script(rng, kinds)
    while not s.info:
        s.make()
    names = [o for o, w in ops.items() for _ in range(w)]
    for _ in range(n):
        getattr(s, rng.choice(names))()
    return s.t


def seq(rng, i, tier):
    return run(rng, {'make': 2, 'slice': 7, 'get': 4, 'read': 6, 'stop': 3,
                     'badget': 1}, rng.randrange(5, 16))


def find(rng, i, tier):
    return run(rng, {'make': 2, 'slice': 3, 'look_for': 12, 'eq': 4},
               rng.randrange(5, 16))


def eq(rng, i, tier):
    return run(rng, {'make': 2, 'slice': 3, 'eq': 8, 'read': 1},
               rng.randrange(4, 12))


def factory(rng, i, tier):
    return run(rng, {'factory': 10, 'stop': 2, 'read': 1},
               rng.randrange(2, 10))


def rejected(rng, i, tier):
    return run(rng, {'make': 2, 'slice': 1, 'bad': 6, 'set': 5, 'read': 4,
                     'stop': 1}, rng.randrange(4, 12))


SUITES = {'range_seq': seq, 'range_find': find, 'range_eq': eq,
          'range_factory': factory, 'range_rejected': rejected}


# ------------------------------------------------------------------ walks

def walk_cfg(state, rng):
    hour = 3600 * 10 ** 6
    return {'tt': 6 * hour, 'day': 4, 'td': hour, 'base': rng.choice(BASES),
            'tbase': rng.choice(['00:00:00', '03:30:00', '05:59:59.5'])}


def split(ev):
    import json
    k = ev['op']
    n_out = k in ('count', 'index')
    op = {x: ev[x] for x in ('op', 'i', 'j', 'kind', 'a', 'b', 'd', 'sa',
                             'sb', 'sc', 'v')}
    op['n'] = 0 if n_out else ev['n']
    out = [ev['err'], ev['vals'], ev['res'], ev['ne'], ev['hash'],
           ev['n'] if n_out else 0]
    if k == 'eq' and not ev['res']:
        out[4] = False
    return json.dumps(op, sort_keys=True), json.dumps(out), op


def walk_op(op, rng):
    op = dict(op)
    if op['op'] == 'factory':
        op.update(unit='hours', form=rng.choice(['', 'a', 'ab']))
    return op


WALKS = {'range': {'driver': 'RangesDriver', 'cfg': walk_cfg, 'op': walk_op,
                   'split': split, 'length': 10}}
