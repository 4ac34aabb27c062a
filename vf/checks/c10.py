"""C10 absolute validity and timezones"""
from ..core import S, U, DT
from ..gen import *
from ..ref import tpdu
import datetime
import json

RULE = ('datetimes over 1970-2068 with every whole-quarter offset between '
        '-14:00 and +14:00 (and beyond up to 19:45), naive ones, with the '
        'library\'s FixedOffset and a foreign tzinfo; and every quarter '
        'offset written as a timezone text; distinct = different (datetime, '
        'offset)')
NEED = {'encoded': 900, 'zones': 150, 'changing': 40}


def gen(rng, ctx):
    qs = list(range(-79, 80))
    n = scale(ctx, 6, 60)
    for q in qs + [None] * 10:
        for k in range(n):
            v, a, _ = absolute(rng, q)
            if q is None:
                v = DT(*a)
            elif k % 2:
                v = DT(*a, tz={'tz': q * 15})
            yield {'s': [['c', None,
                          'messaging.utils:datetime_to_absolute_validity', [v]],
                         ['h', None, 'submit', [S('600123'), S('x'),
                          [{'t': [S('validity'), v]}]]]],
                   'x': ['abs', list(a), q]}
    # time zones with a change, just before, at and after it
    for i in range(scale(ctx, 60, 600)):
        a, b = rng.sample([-240, -180, -210, 0, 60, 120, 330, 570, 600, 630], 2)
        at = (rng.randint(1970, 2068), rng.randint(1, 12), rng.randint(1, 28),
              rng.randint(0, 23), rng.choice([0, 0, 30]), 0)
        t = datetime.datetime(*at) + datetime.timedelta(
            seconds=rng.choice([-1, 0, 1, 3600, -3600, rng.randint(-90000, 90000)]))
        t = (t.year, t.month, t.day, t.hour, t.minute, t.second)
        if not 1970 <= t[0] <= 2068:
            continue
        v = DT(*t, tz={'sw': [a, list(at), b]})
        yield {'s': [
            ['c', None, 'messaging.utils:datetime_to_absolute_validity', [v]],
            ['h', None, 'submit', [S('600123'), S('x'),
                                   [{'t': [S('validity'), v]}]]]],
               'x': ['abs', list(t), (b if t >= at else a) // 15, 'sw']}
    # every month, hour, minute, year
    for y in range(1970, 2069):
        a = (y, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
             rng.randint(0, 59), rng.randint(0, 59))
        yield one(a)
    for k in range(60):
        yield one((2011, k % 12 + 1, k % 28 + 1, k % 24, k, 59 - k))
    for a in ((2000, 2, 29, 23, 59, 59), (2012, 12, 31, 0, 0, 0),
              (1999, 12, 31, 23, 59, 59), (2000, 1, 1, 0, 0, 0)):
        yield one(a)
    for sign in '+-':
        for h in range(0, 24):
            for m in (0, 15, 30, 45):
                yield {'s': [['c', 'z',
                              'messaging.utils:FixedOffset.from_timezone',
                              [S('%s%02d%02d' % (sign, h, m)), S('zone')]],
                             ['c', None, '$z.utcoffset', [None]],
                             ['c', None, '$z.dst', [None]],
                             ['c', None, '$z.tzname', [None]]],
                       'x': ['zone', sign, h, m]}
    yield {'s': [['c', 'z', 'messaging.utils:FixedOffset.from_timezone',
                  [S(''), S('none')]],
                 ['c', None, '$z.utcoffset', [None]],
                 ['c', None, '$z.dst', [None]],
                 ['c', None, '$z.tzname', [None]]], 'x': ['zone', '+', 0, 0]}


def one(a):
    v = DT(*a)
    return {'s': [['c', None, 'messaging.utils:datetime_to_absolute_validity',
                   [v]],
                  ['h', None, 'submit', [S('600123'), S('x'),
                                         [{'t': [S('validity'), v]}]]]],
            'x': ['abs', list(a), None]}


def nontrivial(c, rs):
    return json.dumps(c['x'])


def judge(c, rs, ctx):
    x = c['x']
    if x[0] == 'zone':
        ctx.hit('zones')
        sec = (x[2] * 60 + x[3]) * 60 * (1 if x[1] == '+' else -1)
        d, s = divmod(sec, 86400)
        if not rs[1].ok or rs[1].val != ('td', (d, s, 0)):
            yield 'from_timezone', ('%s%02d%02d is %r, not %d s' %
                                    (x[1], x[2], x[3], rs[1], sec))
        if not rs[2].ok or rs[2].val != ('td', (0, 0, 0)):
            yield 'dst', repr(rs[2])
        if not rs[3].ok or rs[3].val not in ('zone', 'none'):
            yield 'tzname', repr(rs[3])
        return
    want = tpdu.scts(*x[1], x[2] or 0)
    r = rs[0]
    if not r.ok or list(r.val) != list(want):
        yield 'octets', ('%r offset %r quarters: %r, not %r' %
                         (x[1], x[2], r, list(want)))
    else:
        ctx.hit('encoded')
        if len(x) > 3:
            ctx.hit('changing')
        ctx.see('tz_octets', want[6])
    r = rs[1]
    if not r.ok:
        yield 'message', repr(r)
        return
    try:
        p = tpdu.parse_submit(r.val[0][0][0])
    except tpdu.Bad as e:
        yield 'message', '%s %s' % (e, r)
        return
    if p['vpf'] != 3 or p['vp'] != want:
        yield 'message', ('%r offset %r: vpf %r vp %r' %
                          (x[1], x[2], p['vpf'], p['vp']))
