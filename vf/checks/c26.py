"""C26 content types with parameters survive an encode and decode"""
from ..core import S, A, D, V, dec
from ..mmsgen import *
from ..gen import scale, octets
from ..ref import wsp
from . import c20
from .c25 import py
import json

RULE = ('content types (every assigned one and textual ones) with 0-8 '
        'parameters of every kind and value lengths on both sides of 30/31 '
        'and 127/128, encoded alone, as header of a message and of a part, '
        'and written by the model for decoding; what cannot be encoded; '
        'distinct = different (type, parameters)')
NEED = {'encoded': 1200, 'decoded': 2000, 'params': 1500, 'media': 76,
        'lengths': 120, 'refused': 40, 'in_message': 150}


def params(rng, n):
    return {k: v for k, v in c20.params(rng, n) if k != 'Secure' or v == 0}


def enc(w, m, ps):
    return ['h', None, 'enc1', [S(w), S('content_type_value'), S(m),
                                D({k: py(v) for k, v in ps.items()})]]


def gen(rng, ctx):
    medias = [wsp.CT[k] for k in sorted(wsp.CT)]
    other = ['application/smil', 'audio/amr', 'x', 'video/3gpp2', '~/!']
    todo = [(m, {}) for m in medias + other]
    todo += [(m, params(rng, 1)) for m in medias + other]
    for _ in range(scale(ctx, 1000, 20000)):
        m = rng.choice(medias + other + ['text/x-' + token(rng)])
        todo.append((m, params(rng, rng.randint(0, 8))))
    # every value length from 1 to 140
    for n in range(0, 140):
        m = rng.choice(['x', 'text/plain', 'application/smil'])
        todo.append((m, {rng.choice(['Name', 'Start', 'n']): 'v' * n}))
        todo.append(('m' * (n + 1), {'Type': 'application/smil'}))
        todo.append(('m' * (n + 1), {}))
    for m, ps in todo:
        s = [enc('wsp', m, ps)]
        msg = rng.random() < .2
        if msg:
            ct = {'t': [S(m), D({k: py(v) for k, v in ps.items()})]}
            s += [['c', 'm', 'messaging.mms.message:MMSMessage', []],
                  ['si', '$m.headers', S('Content-Type'), ct],
                  ['c', 'p', 'messaging.mms.message:DataPart', []],
                  ['c', None, '$p.set_data', [S('x'), S(m), ct['t'][1]]],
                  ['c', None, '$m.add_data_part', [V('$p')]],
                  ['h', None, 'mms_rt', [V('$m')]]]
        yield {'s': s, 'x': ['enc', m, ps, msg]}
    for _ in range(scale(ctx, 2500, 40000)):
        b, ct = ctype(rng)
        tail = octets(rng, rng.randint(0, 3))
        yield {'s': [['h', None, 'dec1', [S('wsp'), S('content_type_value'),
                                          A(b + tail)]]],
               'x': ['dec', b.hex(), ct, tail.hex()]}
    for m in ('\x01x', '\x80', '\x7fx', 'a\0b', '\x1fabc'):
        for ps in ({}, {'Name': 'x'}, {'n': 5}):
            yield {'s': [enc('wsp', m, ps)], 'x': ['bad', m, ps]}
    for ps in ({'a b': 1}, {'a/b': 'c'}, {'é': 1}, {'n': 'a\0'}, {'n': -1},
               {'Name': 'a\0b'}, {'Padding': 200}, {'(': 'x'}, {'n=': 1},
               {'Start': '\0'}):
        for m in ('text/plain', 'application/smil', 'multipart/mixed'):
            yield {'s': [enc('wsp', m, ps)], 'x': ['bad', m, ps]}


def nontrivial(c, rs):
    return json.dumps(c['x'])


def judge(c, rs, ctx):
    x = c['x']
    if x[0] == 'bad':
        if rs[0].ok or not rs[0].ordinary:
            yield 'accepted', '%r: %r' % (x, rs[0])
        else:
            ctx.hit('refused')
        return
    if x[0] == 'dec':
        ctx.hit('decoded')
        o = rs[0].val
        if not o or o['r'][0] != 'v':
            yield 'decode', '%s: %r' % (x[1], o or rs[0])
        elif norm(dec(o['r'][1])) != x[2]:
            yield 'decode', '%s: %r, not %r' % (x[1], norm(dec(o['r'][1])),
                                                x[2])
        elif o['left'].hex() != x[3]:
            yield 'cursor', '%s: %s left' % (x[1], o['left'].hex())
        return
    _, m, ps, msg = x
    if not all(r.ok for r in rs):
        yield 'refused', '%r: %r' % (x, rs)
        return
    ctx.hit('encoded')
    ctx.see('media', m)
    ctx.hit('params', len(ps))
    b = rs[0].val
    ctx.see('lengths', len(b))
    cur = wsp.Cur(b)
    try:
        got = cur.content_type()
        left = cur.left
    except wsp.Bad as e:
        got, left = str(e), 0
    if got != (m, got[1]) or left or sorted(got[1]) != sorted(ps.items()):
        yield 'encode', '%s %r: %s is %r' % (m, ps, b.hex(), got)
        return
    if len(ps) == 0 and m in wsp.CTN and b != wsp.short(wsp.CTN[m]):
        yield 'number', '%s: %s' % (m, b.hex())
    if msg:
        ctx.hit('in_message')
        back = rs[-1].val['back']
        if not isinstance(back, dict) or \
                norm(back['headers']['Content-Type']) != [m, ps] or \
                norm(back['parts'][1]['headers']['Content-Type']) != [m, ps]:
            yield 'message', '%r: %r' % ([m, ps], back)
