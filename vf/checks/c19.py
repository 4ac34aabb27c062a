"""C19 WSP integers and lengths round trip"""
from ..core import S, U, A
from ..gen import *
from ..ref import wsp
import json

RULE = ('each integer form over all values near powers of two up to its '
        'limit (30 octets), all small values and random ones, encoded and '
        'decoded in front of random octets, plus values out of range; '
        'distinct = different (form, value)')
NEED = {'encoded': 2500, 'decoded': 2500, 'refused': 50}
FORMS = {'uint_var': (wsp.uintvar, 2 ** 70), 'short_integer': (wsp.short, 127),
         'long_integer': (wsp.long, 2 ** 240 - 1),
         'integer_value': (wsp.integer, 2 ** 240 - 1),
         'value_length': (wsp.vlen, 2 ** 40),
         'short_length': (lambda n: bytes([n]), 30),
         'uint_8': (lambda n: bytes([n]), 255),
         'delta_seconds_value': (wsp.integer, 2 ** 240 - 1)}
NOENC = ('delta_seconds_value',)


def L(n):
    return n if abs(n) < 2 ** 31 else {'long': str(n)}


def gen(rng, ctx):
    for form, (f, mx) in FORMS.items():
        vals = set(range(0, min(mx, 300) + 1))
        k = 1
        while k <= mx:
            vals |= {k - 1, k, k + 1}
            k *= 2
        for d in (10, 1000, 65535, 65536, 16383, 16384, 2097151, 2097152,
                  mx, mx - 1):
            vals.add(d)
        for _ in range(scale(ctx, 60, 2000)):
            vals.add(rng.getrandbits(rng.randint(1, mx.bit_length())))
        for v in sorted(x for x in vals if 0 <= x <= mx):
            b = f(v)
            tail = octets(rng, rng.randint(0, 4))
            st = [['h', None, 'dec1', [S('wsp'), S(form), A(b + tail)]]]
            if form not in NOENC:
                st.append(['h', None, 'enc1', [S('wsp'), S(form), L(v)]])
            yield {'s': st, 'x': [form, str(v), b.hex(), tail.hex()]}
        bad = [-1, -2, -127, -128, -129, -255, -256, -65536, -2 ** 31]
        if form in ('short_integer', 'short_length'):
            bad += [mx + 1, mx + 2, 255, 256, 1000, 2 ** 31, 2 ** 40]
        if form in ('long_integer', 'integer_value'):
            bad += [2 ** 240, 2 ** 240 + 1, 2 ** 248, 2 ** 300]
        if form == 'uint_8' or form in NOENC:
            bad = []
        for v in bad:
            yield {'s': [['h', None, 'enc1', [S('wsp'), S(form), L(v)]]],
                   'x': ['bad', form, str(v)]}
    # long integers with leading zeros, uintvars with leading zeros
    for n in range(1, 31):
        b = bytes([n]) + bytes(n - 1) + b'\x2a'
        yield {'s': [['h', None, 'dec1', [S('wsp'), S('long_integer'),
                                          A(b)]]],
               'x': ['long_integer', '42', b.hex(), '']}
    for n in range(1, 5):
        b = b'\x80' * n + b'\x2a'
        yield {'s': [['h', None, 'dec1', [S('wsp'), S('uint_var'), A(b)]]],
               'x': ['uint_var', '42', b.hex(), '']}
    # a value length may be quoted although it is short
    for n in range(0, 31):
        b = b'\x1f' + bytes([n])
        yield {'s': [['h', None, 'dec1', [S('wsp'), S('value_length'), A(b)]]],
               'x': ['value_length', str(n), b.hex(), '']}
    for n in range(128, 256):
        yield {'s': [['c', None,
                      'messaging.mms.wsp_pdu:Decoder.'
                      'decode_short_integer_from_byte', [n]]],
               'x': ['byte', str(n - 128)]}


def nontrivial(c, rs):
    return json.dumps(c['x'])


def judge(c, rs, ctx):
    x = c['x']
    if x[0] == 'bad':
        if rs[0].ok:
            yield 'accepted', '%s %s encoded as %r' % (x[1], x[2], rs[0])
        elif not rs[0].ordinary:
            yield 'accepted', repr(rs[0])
        else:
            ctx.hit('refused')
        return
    if x[0] == 'byte':
        if not rs[0].ok or rs[0].val != int(x[1]):
            yield 'byte', repr(rs[0])
        return
    form, v, b, tail = x
    ctx.hit('decoded')
    r = rs[0]
    o = r.val if r.ok else None
    if not o or o['r'][0] != 'v' or o['r'][1] != int(v):
        yield 'decode', '%s %s of %s: %r' % (form, v, b, o or r)
    elif o['left'].hex() != tail:
        yield 'cursor', '%s %s: left %s of %s' % (form, b, o['left'].hex(),
                                                  tail)
    if len(rs) > 1:
        ctx.hit('encoded')
        if not rs[1].ok or rs[1].val.hex() != b:
            yield 'encode', '%s %s: %r, not %s' % (form, v, rs[1], b)
