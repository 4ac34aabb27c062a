"""C11 the gsm0338 codec is the TS 23.038 table"""
from ..core import S, U, V
from ..gen import *
from ..ref import gsm
import json

RULE = ('every Unicode code point (encode, is_gsm_text), every octet and '
        'every escape pair (decode), error modes, random GSM strings both '
        'ways; evaluations count histories, the monitor counts count code '
        'points')
NEED = {'codepoints': 60000, 'octets': 256, 'escapes': 128, 'strings': 150}
LOSSY = dict(zip('çΑΒΕΗΙΚΜΝΟΡΤΧΥΖ', b'\x09ABEHIKMNOPTXYZ'))


def gen(rng, ctx):
    top = 0x110000 if ctx.thorough else 0x12000
    for lo in range(0, top, 2048):
        yield {'s': [['h', None, 'gsm_sweep', [lo, lo + 2048]]],
               'x': ['sweep', lo]}
    for i in range(256):
        b = bytes([i])
        yield {'s': [['h', None, 'gsm_dec', [S(b), m]] for m in
                     (S('strict'), S('replace'), S('ignore'), S('bogus'))],
               'x': ['octet', i]}
    for i in range(128):
        b = b'a\x1b' + bytes([i]) + b'b'
        yield {'s': [['h', None, 'gsm_dec', [S(b), S(m)]] for m in
                     ('strict', 'replace', 'ignore')],
               'x': ['esc', i]}
    for n in range(0, 162):
        t = gsm_text(rng, n, rng.choice([0, .2, .8]))
        yield {'s': [['h', 'e', 'gsm_enc', [U(t), S('strict')]],
                     ['h', None, 'gsm_dec', [V('$e'), S('strict')]],
                     ['h', None, 'gsm_enc', [U(t), S('replace')]],
                     ['h', None, 'gsm_enc', [U(t), S('ignore')]]],
               'x': ['str', t]}
    for k in range(scale(ctx, 200, 5000)):
        t = gsm_text(rng, rng.randint(0, 40), .2)
        bad = []
        for _ in range(rng.randint(1, 4)):
            ch = rng.choice([bmp_char(rng), rng.choice(list(LOSSY)),
                             astral_char(rng), 'Ł', '\x1b', '\t'])
            i = rng.randint(0, len(t))
            t = t[:i] + ch + t[i:]
        yield {'s': [['h', None, 'gsm_enc', [U(t), S(m)]] for m in
                     ('strict', 'replace', 'ignore', 'bogus')],
               'x': ['err', t]}
    # a stream that ends in the middle of an escape, undefined septets
    for k in range(60):
        t = gsm_text(rng, rng.randint(0, 20), .2)
        yield {'s': [['h', None, 'gsm_dec', [S(gsm.encode(t) + b'\x1b'),
                                             S('strict')]]],
               'x': ['cut', t]}
    for k in range(100):
        b = bytes(rng.randrange(128) for _ in range(rng.randint(0, 60)))
        p = rng.randint(0, len(b))
        hi = bytes([rng.randint(128, 255)])
        yield {'s': [['h', None, 'gsm_dec', [S(b[:p] + hi + b[p:]), S(m)]]
                     for m in ('strict', 'replace', 'ignore', 'bogus')],
               'x': ['dec8', (b[:p] + hi + b[p:]).hex(), p]}


def nontrivial(c, rs):
    return json.dumps(c['x'])


def enc(t, mode):
    out = []
    for ch in t:
        if ch in gsm.ENC:
            out.append(gsm.ENC[ch])
        elif mode == 'replace':
            out.append(bytes([LOSSY.get(ch, 0x3f)]))
        elif mode != 'ignore':
            return None
    return b''.join(out).decode('latin-1')


def judge(c, rs, ctx):
    x = c['x']
    r = rs[0]
    if x[0] == 'sweep':
        if not r.ok:
            yield 'sweep', repr(r)
            return
        for cp, e, isg in r.val:
            ctx.hit('codepoints')
            w = gsm.ENC.get(chr(cp))
            w = w and w.hex()
            if e != w:
                yield 'encode', 'U+%04X is %r, not %r' % (cp, e, w)
            if bool(isg) != (w is not None):
                yield 'is_gsm_text', 'U+%04X: %r' % (cp, isg)
    elif x[0] == 'octet':
        ctx.hit('octets')
        i = x[1]
        if i == 0x1b:
            # nothing follows: what the table shows for it, never a character
            # of another code
            if not r.ok or r.val not in ('\xa0', ' '):
                yield 'decode', 'lone escape: %r' % r
        elif i < 128:
            for k in rs:
                if not k.ok or k.val != gsm.BASIC[i]:
                    yield 'decode', '%02x is %r' % (i, k)
        else:
            yield from high(bytes([i]), rs)
    elif x[0] == 'esc':
        ctx.hit('escapes')
        w = gsm.ESC.get(x[1])
        for k in rs[1:]:
            if r.ok and (not k.ok or k.val != r.val):
                yield 'modes', '1b %02x: %r and %r' % (x[1], r, k)
        if w is None:
            # not defined: a receiver shows a space (23.038), or the basic
            # character
            if not r.ok or r.val[0] != 'a' or r.val[-1] != 'b' or \
                    len(r.val) != 3:
                yield 'escape', 'undefined 1b %02x: %r' % (x[1], r)
        elif not r.ok or r.val != 'a' + w + 'b':
            yield 'escape', '1b %02x: %r' % (x[1], r)
    elif x[0] == 'str':
        ctx.hit('strings')
        t = x[1]
        w = gsm.encode(t).decode('latin-1')
        if not r.ok or r.val != w:
            yield 'encode', '%a: %r' % (t, r)
        if not rs[1].ok or rs[1].val != t:
            yield 'roundtrip', '%a: %r' % (t, rs[1])
        for k in rs[2:]:
            if not k.ok or k.val != w:
                yield 'modes', '%a: %r' % (t, k)
    elif x[0] == 'err':
        t = x[1]
        isg = gsm.is_gsm(t)
        for mode, k in zip(('strict', 'replace', 'ignore', 'bogus'), rs):
            w = enc(t, mode)
            if w is None:
                ctx.hit('refused')
                if not k.exc or not k.isa('UnicodeError'):
                    yield 'strict', '%a with %s: %r' % (t, mode, k)
            elif not k.ok or k.val != w:
                yield mode, '%a: %r, not %a' % (t, k, w)
    elif x[0] == 'cut':
        if not r.ok or r.val[:-1] != x[1]:
            yield 'decode', '%a and an escape: %r' % (x[1], r)
    elif x[0] == 'dec8':
        yield from high(bytes.fromhex(x[1]), rs)


def high(b, rs):
    """octets over 0x7f are in no table"""
    lone = False
    i = 0
    bad = False
    while i < len(b):
        if b[i] == 0x1b:
            i += 2
        else:
            bad = bad or b[i] > 127
            i += 1
    if not bad:
        return
    for mode, k in zip(('strict', 'replace', 'ignore', 'bogus'), rs):
        if mode in ('strict', 'bogus'):
            if not k.exc or not k.isa('UnicodeError'):
                yield 'decode-strict', '%s with %s: %r' % (b.hex(), mode, k)
        else:
            if not k.ok:
                yield 'decode-' + mode, '%s: %r' % (b.hex(), k)
            elif not like(k.val, expect(b, mode)):
                yield 'decode-' + mode, '%s: %r' % (b.hex(), k)


def expect(b, mode):
    """the characters, None for any one"""
    out = []
    i = 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0x1b:
            out.append(gsm.ESC.get(b[i]) if i < len(b) else None)
            i += 1
        elif c < 128:
            out.append(gsm.BASIC[c])
        elif mode == 'replace':
            out.append('?')
    return out


def like(t, want):
    return len(t) == len(want) and all(w is None or w == c
                                       for w, c in zip(want, t))
