"""C09 relative validity periods"""
from ..core import S, U, TD
from ..gen import *
import json

RULE = ('periods at, one second/microsecond below and above each of the 256 '
        'representable values, every minute of the first day, random ones, '
        'and periods out of range; distinct = different periods')
NEED = {'values': 256, 'in_range': 1500, 'out_of_range': 50}
ASSUME = ['TP-VP semantics from TS 23.040 9.2.3.12.1']


def gen(rng, ctx):
    us = set()
    for v in range(256):
        p = vp_seconds(v) * 10 ** 6
        for d in (0, 1, -1, 10 ** 6, -10 ** 6, 60 * 10 ** 6, -60 * 10 ** 6,
                  299999999):
            us.add(p + d)
    for m in range(0, 1500, 1 if ctx.thorough else 3):
        us.add(m * 60 * 10 ** 6)
    mx = vp_seconds(255)
    for i in range(scale(ctx, 500, 20000)):
        us.add(rng.randint(300, mx) * 10 ** 6 + rng.choice([0, 0, 1, 999999]))
    # units of other rules: hours over a day, days over a month
    for h in range(24, 31 * 24, 5):
        us.add(h * 3600 * 10 ** 6)
    for d in range(25, 442):
        us.add(d * 86400 * 10 ** 6)
        us.add(d * 86400 * 10 ** 6 - 1)
    for t in [0, 1, 299, -1, -300, -86400, -86100, mx + 1, mx + 86400,
              mx * 2, 10 ** 9, -10 ** 9]:
        us.add(t * 10 ** 6)
    us.add(299999999)
    us.add(mx * 10 ** 6 + 1)
    for i in range(30):
        us.add(-rng.randint(1, 10 ** 13))
        us.add(mx * 10 ** 6 + rng.randint(1, 10 ** 13))
    us = sorted(us)
    for i in range(0, len(us), 10):
        st, xs = [], us[i:i + 10]
        for t in xs:
            d, s = divmod(t // 10 ** 6, 86400)
            st.append(['c', None, 'messaging.utils:timedelta_to_relative_'
                       'validity', [TD(d, s, t % 10 ** 6)]])
        # and through a message
        t = xs[0]
        d, s = divmod(t // 10 ** 6, 86400)
        st.append(['h', None, 'submit', [S('600123'), S('x'),
                   [{'t': [S('validity'), TD(d, s, t % 10 ** 6)]}]]])
        yield {'s': st, 'x': xs}


def judge(c, rs, ctx):
    mx = vp_seconds(255) * 10 ** 6
    for t, r in zip(c['x'], rs):
        if 300 * 10 ** 6 <= t <= mx:
            ctx.hit('in_range')
            want = ref_relative(t // 10 ** 6)
            if not r.ok or r.val != want:
                yield 'value', ('%r s: %r; the longest period not over it is '
                                '%d (%d s)' % (t / 1e6, r, want,
                                               vp_seconds(want)))
            else:
                ctx.see('values', r.val)
        else:
            ctx.hit('out_of_range')
            if r.exc != 'ValueError':
                yield 'range', '%r s has no value, but %r' % (t / 1e6, r)
    t, r = c['x'][0], rs[-1]
    if 300 * 10 ** 6 <= t <= mx:
        from ..ref import tpdu
        if not r.ok:
            yield 'message', '%r s: %r' % (t / 1e6, r)
        else:
            p = tpdu.parse_submit(r.val[0][0][0])
            if p['vp'] != ref_relative(t // 10 ** 6) or p['vpf'] != 2:
                yield 'message', '%r s: vpf %r vp %r' % (t / 1e6, p['vpf'],
                                                         p['vp'])
    elif r.exc != 'ValueError':
        yield 'message-range', '%r s: %r' % (t / 1e6, r)
