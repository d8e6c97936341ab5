"""Drives real ranges of datetimes in zones with changing offsets
(spec/Zone.tla)."""
from datetime import datetime, timedelta, timezone, tzinfo
from zoneinfo import ZoneInfo

from ranges import BIG, KINDS, US, RangesDriver, Script as RangesScript
from ranges import split as ranges_split
from base import Trace

TICK = timedelta(minutes=30)
WINDOW = 20000                     # ticks in which zones are known


class Shifting(tzinfo):
    """A zone whose offset changes, given in ticks after a base."""

    def __init__(self, name, base, offs, ats):
        self.name = name
        self.base = base
        self.offs = [o * TICK for o in offs]
        self.ats = [a * TICK for a in ats]

    def at(self, u):
        return self.offs[sum(a <= u for a in self.ats)]

    def utcoffset(self, dt):
        w = dt.replace(tzinfo=None, fold=0) - self.base
        fits = sorted({w - o for o in self.offs if self.at(w - o) == o})
        if fits:
            return w - (fits[-1] if dt.fold else fits[0])
        # The clock was put forward: as before, or (second time) as after.
        for k, a in enumerate(self.ats):
            if a + self.offs[k] <= w < a + self.offs[k + 1]:
                return self.offs[k + 1 if dt.fold else k]
        raise AssertionError(w)

    def dst(self, dt):
        return timedelta(0)

    def tzname(self, dt):
        return self.name

    def fromutc(self, dt):
        u = dt.replace(tzinfo=None, fold=0) - self.base
        w = u + self.at(u)
        first = min(w - o for o in self.offs if self.at(w - o) == o)
        return (self.base + w).replace(tzinfo=self, fold=int(first != u))

    def __repr__(self):
        return self.name


NAMED = ['America/Chicago', 'Europe/London', 'Australia/Lord_Howe',
         'America/St_Johns', 'Asia/Kolkata', 'Pacific/Apia']
FIXED = {'utc': timezone.utc, 'six': timezone(timedelta(hours=-6)),
         'one': timezone(timedelta(hours=1), 'One')}
KNOWN = {}


def known(tz, base):
    """The offsets of a zone in ticks: [offs, ats]."""
    offs, ats = [], []
    u = base.replace(tzinfo=timezone.utc) - WINDOW * TICK
    for k in range(-WINDOW, WINDOW):
        off = u.astimezone(tz).utcoffset()
        if not offs or off != offs[-1]:
            if offs:
                ats.append(k)
            offs.append(off)
        u += TICK
    assert not any(o % TICK for o in offs)
    return {'offs': [o // TICK for o in offs], 'ats': ats}


class ZonesDriver(RangesDriver):
    """cfg: base; zones: name -> a name, or offsets that are made up."""
    spec = 'Zone'

    def __init__(self, cfg):
        cfg.update(tt=1, day=0, td=TICK // US, tbase='00:00:00')
        RangesDriver.__init__(self, cfg)
        self.zones, spec = {}, {}
        for k, z in cfg['zones'].items():
            if isinstance(z, dict):
                self.zones[k] = Shifting(k, self.base, z['offs'], z['ats'])
                spec[k] = z
                continue
            self.zones[k] = FIXED.get(z) or ZoneInfo(z)
            if (z, self.base) not in KNOWN:
                KNOWN[z, self.base] = known(self.zones[k], self.base)
            spec[k] = KNOWN[z, self.base]
        self.speccfg = {'zones': spec}

    def tick(self, kind):
        return TICK // US

    def value(self, kind, tz, x, us=0):
        if kind not in self.zones:
            return RangesDriver.value(self, kind, tz, x, us)
        return (self.base + x * TICK + us * US).replace(
            tzinfo=self.zones[kind])

    def ticks(self, v, kind, tz):
        if type(v) is not datetime or v.tzinfo is not self.zones[kind] \
                or v.fold:
            return []
        d = v.replace(tzinfo=None) - self.base
        return [] if d % TICK else [d // TICK]

    def apply(self, op):
        ev = RangesDriver.apply(self, op)
        ev['zb'] = op.get('zb', '')
        return ev

    def stop_value(self, op):
        return self.value(op['zb'], '', op['b'])

    def query(self, op, kind, tz):
        x = op.get('x', '')
        if x == '':
            return self.value(op['zb'], '', op['v']).replace(
                fold=op.get('fold', 0)), False
        return RangesDriver.query(self, op, kind, tz)


# ---------------------------------------------------------------- suites

BASES = ['2023-03-12T00:00:00', '2023-11-05T00:00:00', '2023-10-29T00:00:00',
         '2023-04-01T12:00:00', '2011-12-30T00:00:00', '2022-06-01T00:00:00']
STEPS = [1, 1, 2, 2, 3, 4, 24, 48, 48, 48, 96, 336]


class Script(RangesScript):
    def __init__(self, rng):
        self.rng = rng
        zones, named = {}, rng.sample(NAMED, 3)
        fixed = rng.sample(sorted(FIXED), 3)
        for k in ('p', 'q', 'r')[:rng.choice([1, 2, 3, 3])]:
            x = rng.random()
            if x < 0.5:
                zones[k] = named.pop()
            elif x < 0.7:
                zones[k] = fixed.pop()
            else:
                ats = sorted(rng.sample(range(-150, 150, 10), rng.choice(
                    [1, 1, 2, 3])))
                o = rng.randrange(-20, 20)
                offs = [o]
                for _ in ats:
                    offs.append(offs[-1] + rng.choice([1, 2, 4, -1, -2, -4]))
                zones[k] = {'offs': offs, 'ats': ats}
        self.t = Trace(ZonesDriver, {'base': rng.choice(BASES),
                                     'zones': zones})
        self.d = self.t.driver
        self.names = sorted(zones)
        self.info = []             # (zone, '')

    def near(self):
        r = self.rng
        return r.choice([r.randrange(-10, 30), r.randrange(-100, 100),
                         r.randrange(-600, 600), 0])

    def step(self):
        return self.rng.choice(STEPS) * self.rng.choice([1, 1, -1])

    def clear(self, k, u):
        """No shift of zone k at about instant u."""
        z = self.d.speccfg['zones'][k]
        return all(abs(u - a) > 60 for a in z['ats'])

    def instant(self, k, w):
        v = self.d.value(k, '', w)
        return (v.replace(tzinfo=None) - v.utcoffset()
                - self.d.base) // TICK

    def ctor(self, kind=None):
        r = self.rng
        d = self.step()
        n = r.choice([0, 1, 2, 3, 5, 8, r.randrange(60), r.randrange(300)])
        n = min(n, 15000 // abs(d))
        kind = kind or r.choice(self.names)
        self.do(op='ctor', kind=kind, a=self.near(), d=d, n=n)
        self.info.append([kind, ''])

    def factory(self):
        r = self.rng
        kind, zb = r.choice(self.names), r.choice(self.names)
        a, d = self.near(), self.step()
        n = r.choice([0, 1, 2, 7, r.randrange(60)])
        b = a + n * d + r.choice([0, 0, 1, -1, r.randrange(abs(d))])
        if zb != kind:
            b += r.randrange(-20, 20)
            u = self.instant(zb, b)
            if not (self.clear(kind, u) and self.clear(zb, u)):
                return self.ctor()
        us = self.units(kind, d)
        self.do(op='factory', kind=kind, zb=zb, a=a, b=b, d=d,
                unit=r.choice(us), omit=r.random() < 0.4)
        self.info.append([kind, ''])
        self.do(op='read', i=len(self.info), fresh=True)

    def look_for(self, kinds=('in', 'count', 'index')):
        r = self.rng
        i = self.pick()
        rg = self.reg(i)
        n = len(rg)
        kind = self.info[i - 1][0]
        op = {'op': r.choice(kinds), 'i': i, 'x': '', 'fold': 0,
              'zb': r.choice(self.names + [kind])}
        zb = op['zb']
        if n and r.random() < 0.8:
            v = rg[r.choice([r.randrange(n), n - 1])]
            if zb != kind:
                v = v.astimezone(self.d.zones[zb])
            op['fold'] = v.fold
            v = (v.replace(tzinfo=None, fold=0) - self.d.base) // TICK
            if r.random() < 0.2:
                v += r.choice([1, -1, 2, -2, 48])
        else:
            v = self.near()
        if r.random() < 0.1:
            op['fold'] = r.choice([0, 1])
        if r.random() < 0.06:
            op['x'] = r.choice(['naive', 'date', 'time', 'none', 'str',
                                'off', 'int'])
        if op['op'] == 'index' and r.random() < 0.4:
            op['sa'], op['sb'] = self.lim(n), self.lim(n)
        self.do(**dict(op, v=v))

    def similar(self, i):
        """Another range with (almost) the same values, made otherwise."""
        r = self.rng
        rg = self.reg(i)
        n = len(rg)
        kind = r.choice(self.names)
        v = rg.start.astimezone(self.d.zones[kind])
        a = (v.replace(tzinfo=None, fold=0) - self.d.base) // TICK
        d = rg.step // TICK
        k = r.random()
        if k < 0.1:
            a += 1
        elif k < 0.2:
            n = max(0, n + r.choice([1, -1]))
        elif k < 0.4 and n <= 1:
            d = self.step()
        if k > 0.9:
            self.do(op='slice', i=i, sa=[], sb=[], sc=[-1])
            self.info.append(list(self.info[i - 1]))
            return len(self.info)
        self.do(op='ctor', kind=kind, a=a, d=d, n=n)
        self.info.append([kind, ''])
        return len(self.info)

    def lim(self, n, wide=True):
        return RangesScript.lim(self, n)


def run(rng, ops, n):
    s = Script(rng)
    while not s.info:
        s.make()
    names = [o for o, w in ops.items() for _ in range(w)]
    for _ in range(n):
        getattr(s, rng.choice(names))()
    return s.t


def zone_seq(rng, i, tier):
    return run(rng, {'make': 2, 'slice': 6, 'get': 4, 'read': 6, 'stop': 3},
               rng.randrange(5, 14))


def zone_find(rng, i, tier):
    return run(rng, {'make': 2, 'slice': 2, 'look_for': 12, 'eq': 5},
               rng.randrange(5, 16))


def zone_factory(rng, i, tier):
    return run(rng, {'factory': 8, 'read': 1, 'stop': 1, 'look_for': 2},
               rng.randrange(2, 10))


SUITES = {'zone_seq': zone_seq, 'zone_find': zone_find,
          'zone_factory': zone_factory}


# ------------------------------------------------------------------ walks

def walk_cfg(state, rng):
    return {'base': rng.choice(BASES), 'zones': state['zones']}


def split(ev):
    import json
    key, out, op = ranges_split(ev)
    op['zb'] = ev['zb']
    return json.dumps(op, sort_keys=True), out, op


def walk_op(op, rng):
    op = dict(op)
    if op['op'] == 'factory':
        op.update(unit='hours')
    return op


WALKS = {'zone': {'driver': 'ZonesDriver', 'cfg': walk_cfg, 'op': walk_op,
                  'split': split, 'length': 10}}
