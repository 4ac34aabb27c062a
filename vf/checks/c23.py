"""C23 MMS headers are decoded exactly"""
from ..core import A
from ..mmsgen import *
from ..gen import scale
from ..ref import wsp
import json

RULE = ('messages of every header in every order written by the reference '
        'model: each header alone with many values, all 256 octets of the '
        'enumerated ones, random sets with application headers, parts and '
        'without; each decoded by MMSMessage.from_data(); distinct = '
        'different octets; non-trivial = at least one header')
NEED = {'headers': 6000, 'names': 24, 'unknown': 300, 'refused': 100,
        'parts': 500}
ENUM = ('Message-Type', 'Status', 'Response-Status')
STRICT = {'Delivery-Report': (128, 129), 'Read-Reply': (128, 129),
          'Report-Allowed': (128, 129), 'Priority': (128, 129, 130),
          'Sender-Visibility': (128, 129)}


def case(b, want):
    return {'s': [['h', None, 'from_data', [A(b)]]], 'x': want}


def gen(rng, ctx):
    for name in NAMES:
        for _ in range(scale(ctx, 40, 600)):
            b, n, v = header(rng, name)
            b2, n2, v2 = header(rng, rng.choice(NAMES))
            want = {n2: v2, n: v}
            yield case((b2 if n2 != n else b'') + b, {'headers': want,
                                                      'parts': []})
    for name in ENUM:
        for c in range(256):
            b, n, v = header(rng, name, c)
            b2, n2, v2 = header(rng, rng.choice(
                [x for x in NAMES if x != name]))
            yield case(b + b2, {'headers': {n: v, n2: v2}, 'parts': [],
                                'unknown': '<' in v or 'U' in v})
    for name, ok in STRICT.items():
        for c in range(128, 256):
            if c not in ok:
                b2, n2, v2 = header(rng, 'Subject')
                yield case(wsp.mms_field(name) + bytes([c]) + b2,
                           {'bad': [name, c], 'headers': {n2: v2}})
    for n in range(scale(ctx, 700, 12000)):
        b, want, _ = message(rng)
        yield case(b, want)
    # all headers in one message
    for n in range(scale(ctx, 40, 400)):
        names = NAMES[:]
        rng.shuffle(names)
        b, want, _ = message(rng, names)
        yield case(b, want)


def nontrivial(c, rs):
    return json.dumps(c['s']) if c['x']['headers'] else None


def judge(c, rs, ctx):
    x, r = c['x'], rs[0]
    if 'bad' in x:
        # a value that the specification does not know and that has no
        # default: an error, or at least nothing invented
        if r.ok:
            h = r.val['headers']
            bad = wrong_headers({k: v for k, v in h.items()
                                 if k != x['bad'][0]}, x['headers'])
            if bad:
                yield 'disturbed', '%s %#x: %r' % (x['bad'][0], x['bad'][1],
                                                   norm(h))
        elif r.ordinary:
            ctx.hit('refused')
        else:
            yield 'breakdown', repr(r)
        return
    if not r.ok:
        yield 'refused', '%r: %r' % (sorted(x['headers']), r)
        return
    for n in x['headers']:
        ctx.hit('headers')
        if n in wsp.MMSN:
            ctx.see('names', n)
    ctx.hit('parts', len(x['parts']))
    if x.get('unknown'):
        ctx.hit('unknown')
    for k in diff(r.val, x):
        yield k
