"""C02 a single-part PDU carries exactly the text, in any alphabet"""
from ..core import S, U
from ..gen import *
from ..ref import gsm, tpdu
import json

RULE = ('single-part messages: every GSM character at every septet phase, '
        'every length 0-160/0-140/0-70, every BMP code point, every octet '
        'value, non-BMP characters; automatic and explicit coding; distinct = '
        'different (coding, text)')
NEED = {'alpha0': 300, 'alpha4': 100, 'alpha8': 900}
ASSUME = ['text is read back from the PDU by an independent TS 23.038 model']


SPECIAL = '\ufeff\ufffe\uffff\0 \n\r\t\xa0\u200b\u2028\u3000\ufffd\x1b@\ud7ff' \
    '\ue000'


def case(rng, alpha, text, auto=False):
    tv = S(text) if isinstance(text, bytes) else U(text)
    t = text.decode('latin-1') if isinstance(text, bytes) else text
    attrs = [] if auto else [{'t': [S('fmt'), alpha]}]
    if rng.random() < .2:
        attrs.append({'t': [S('klass'), rng.randrange(4)]})
    return {'s': [['h', None, 'submit', [S('+34600123456'), tv, attrs]]],
            'x': [alpha, t]}


def gen(rng, ctx):
    for n in range(161):
        for _ in range(scale(ctx, 2, 20)):
            t = gsm_text(rng, n)
            yield case(rng, 0, t, rng.random() < .7)
            if t.isascii():
                yield case(rng, 0, t.encode(), True)
    for k, c in enumerate(gsm.ALL):
        for ph in range(8):
            yield case(rng, 0, gsm_text(rng, ph, 0) + c +
                       gsm_text(rng, rng.randint(0, 20), .3))
    for c in gsm.ONE + '':
        n = rng.randint(1, 160)
        yield case(rng, 0, c * n)
    for c in gsm.TWO:
        for n in (1, 2, 3, 79, 80):
            yield case(rng, 0, c * n)
    for n in range(141):
        for _ in range(scale(ctx, 1, 20)):
            yield case(rng, 4, octets(rng, n))
    for lo in (0, 128):
        yield case(rng, 4, bytes(range(lo, lo + 128)))
    # unicode text in an 8-bit message: one octet per character
    for n in (1, 20, 140):
        yield case(rng, 4, bytes(rng.randrange(256) for _ in
                                 range(n)).decode('latin-1'))
    for n in range(71):
        for _ in range(scale(ctx, 1, 40)):
            yield case(rng, 8, ucs2_text(rng, n))
    cps = [c for c in range(0x10000) if not 0xd800 <= c <= 0xdfff]
    for i in range(0, len(cps), 70):
        t = ''.join(map(chr, cps[i:i + 70]))
        yield case(rng, 8, t, not gsm.is_gsm(t))
    ast = [0x10000 + k * (0x377 if not ctx.thorough else 0x1d)
           for k in range(0x100000 // (0x377 if not ctx.thorough else 0x1d))]
    ast += EMOJI
    for i in range(0, len(ast), 35):
        yield case(rng, 8, ''.join(map(chr, ast[i:i + 35])), True)
    # at an end of the text
    for ch in SPECIAL:
        for n in (0, 1, 5, 30, 69):
            t = ucs2_text(rng, n, 0)
            yield case(rng, 8, ch + t)
            yield case(rng, 8, t + ch)
        yield case(rng, 8, ch * 70)
        for a, b in ((ch, ''), ('', ch), (ch, ch)):
            t = a + '\u4e2d' + ucs2_text(rng, 4, .2) + b
            yield case(rng, 8, t, True)
    for o in range(256):
        t = octets(rng, rng.randint(0, 139))
        yield case(rng, 4, rng.choice([t + bytes([o]), bytes([o]) + t]))
    for ch in gsm.ALL:
        t = gsm_text(rng, rng.randint(0, 158))
        yield case(rng, 0, t + ch)
        yield case(rng, 0, ch + t)
    for t in ('a', 'hello', '\x1b', 'Ł', '', '@' * 70, '\x00', 'ÿ'):
        yield case(rng, 8, t)


def nontrivial(c, rs):
    return json.dumps(c['x']) if c['x'][1] else None


def judge(c, rs, ctx):
    alpha, text = c['x']
    r = rs[0]
    if not r.ok:
        yield 'refused', 'text %a: %r' % (text[:40], r)
        return
    rows = r.val[0]
    ctx.hit('alpha%d' % alpha)
    for ch in text:
        ctx.see('characters', ch)
    if len(rows) != 1:
        yield 'parts', '%d parts for %d characters' % (len(rows), len(text))
        return
    try:
        p = tpdu.parse_submit(rows[0][0])
    except tpdu.Bad as e:
        yield 'malformed', '%a -> %s: %s' % (text, rows[0][0], e)
        return
    if tpdu.alphabet(p['dcs']) != alpha:
        yield 'alphabet', 'coded in %r, not %r' % (tpdu.alphabet(p['dcs']),
                                                   alpha)
        return
    got = p['text'].decode('latin-1') if alpha == 4 else p['text']
    if got != text:
        yield 'text', '%a became %a in %s' % (text, got, rows[0][0])
    if alpha == 0:
        used = p['udl'] * 7
        v = int.from_bytes(p['ud'], 'little') >> used
        if v:
            yield 'spare-bits', 'unused bits are set in %s' % rows[0][0]
