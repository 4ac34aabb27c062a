"""C13 timestamps are converted to UTC exactly"""
from ..core import S, U
from ..gen import *
from ..ref import tpdu
import calendar
import datetime
import json

RULE = ('SMS-DELIVER PDUs whose timestamps cross every timezone octet with '
        'sign (159 offsets) with dates: every year, ends of months and years, '
        'leap days, and times at most one offset away from midnight; distinct '
        '= different (timestamp, offset)')
NEED = {'dates': 2500, 'zones': 158, 'day_changes': 500, 'year_changes': 100}


def gen(rng, ctx):
    k = 0
    edges = [(2011, 12, 31, 23, 59, 59), (2012, 1, 1, 0, 0, 0),
             (2012, 2, 29, 23, 50, 0), (2012, 3, 1, 0, 0, 1),
             (2011, 2, 28, 23, 0, 0), (2011, 3, 1, 1, 2, 3),
             (1999, 12, 31, 20, 0, 0), (2000, 1, 1, 3, 0, 0),
             (2068, 12, 31, 23, 59, 59), (1969, 1, 1, 0, 0, 0),
             (2000, 2, 29, 0, 0, 0), (2010, 6, 30, 12, 0, 0)]
    for q in range(-79, 80):
        for e in edges:
            yield one(rng, e, q)
        for _ in range(scale(ctx, 6, 100)):
            yield one(rng, rand(rng), q)
    # negative zero
    for _ in range(10):
        yield one(rng, rand(rng), 0, 0x08)
    for y in range(1969, 2069):
        for m in range(1, 13):
            d = calendar.monthrange(y, m)[1]
            if ctx.thorough or rng.random() < .3:
                yield one(rng, (y, m, rng.choice([1, d]), rng.randint(0, 23),
                                rng.randint(0, 59), rng.randint(0, 59)),
                          rng.randint(-56, 56))
    for n in range(60):
        yield one(rng, (2011, n % 12 + 1, n % 31 % 28 + 1, n % 24, n, 59 - n), 0)
    for n in range(1, 32):
        yield one(rng, (2011, 1, n, n % 24, 0, n), 4)


def rand(rng):
    y = rng.randint(1969, 2068)
    m = rng.randint(1, 12)
    d = rng.randint(1, calendar.monthrange(y, m)[1])
    return (y, m, d, rng.randint(0, 23), rng.randint(0, 59),
            rng.randint(0, 59))


def one(rng, a, q, raw=None):
    alpha = rng.choice([0, 4, 8])
    b = tpdu.deliver(csca=None, oa=('num', digits(rng, rng.randint(3, 12))),
                     dcs=alpha, ts=tpdu.scts(*a, q, raw), alpha=alpha,
                     text=b'x' if alpha == 4 else 'x')
    return {'s': [['h', None, 'deliver', [S(b.hex())]]], 'x': [list(a), q]}


def nontrivial(c, rs):
    return json.dumps(c['x'])


def judge(c, rs, ctx):
    a, q = c['x']
    r = rs[0]
    if not r.ok:
        yield 'refused', '%r %d quarters: %r' % (a, q, r)
        return
    d = datetime.datetime(*a) - datetime.timedelta(minutes=15 * q)
    want = ('dt', (d.year, d.month, d.day, d.hour, d.minute, d.second, 0),
            None)
    ctx.hit('dates')
    ctx.see('zones', q)
    if d.day != a[2]:
        ctx.hit('day_changes')
    if d.year != a[0]:
        ctx.hit('year_changes')
    if r.val['date'] != want:
        yield 'date', ('%r at %+d quarters is %r, not %r' %
                       (a, q, r.val['date'], want[1]))
    if r.val['data']['date'] != r.val['date']:
        yield 'data', repr(r.val['data']['date'])
