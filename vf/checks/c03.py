"""C03 long messages are split without loss"""
from ..core import S, U
from ..gen import *
from ..ref import gsm, tpdu
import json

RULE = ('messages around and over the single-part limit: every length up to '
        'three parts in each alphabet, two-unit characters (GSM escapes, '
        'surrogate pairs) at every offset from a part boundary, up to 255 '
        'parts; distinct = different (coding, text)')
NEED = {'multipart': 700, 'boundary_pairs': 50}
LIM = {0: 153, 4: 134, 8: 67}
ONEL = {0: 160, 4: 140, 8: 70}


def case(alpha, text, extra=()):
    tv = S(text) if isinstance(text, bytes) else U(text)
    t = text.decode('latin-1') if isinstance(text, bytes) else text
    return {'s': [['h', None, 'submit', [S('+34600123456'), tv,
                   [{'t': [S('fmt'), alpha]}] + list(extra)]]],
            'x': [alpha, t]}


def auto(text):
    return {'s': [['h', None, 'submit', [S('600123'), U(text), []]]],
            'x': [0 if gsm.is_gsm(text) else 8, text]}


def gen(rng, ctx):
    for rep in range(scale(ctx, 1, 6)):
        for n in range(159, 480):
            yield (auto if rng.random() < .5 else
                   lambda t: case(0, t))(gsm_text(rng, n, rng.choice([0, .1, .5])))
        for n in range(139, 420):
            yield case(4, octets(rng, n))
        for n in range(69, 280):
            yield case(8, ucs2_text(rng, n, rng.choice([0, .1, .5])))
    for alpha, lim in LIM.items():
        if alpha == 4:
            pair, one = b'\x1b\x1b', b'a'
            mk = lambda k: b'a' * k
        elif alpha == 0:
            pair, mk = '€', lambda k: gsm_text(rng, k, 0)
        else:
            pair, mk = '\U0001F600', lambda k: ucs2_text(rng, k, 0)
        for b in (lim, 2 * lim, 3 * lim):
            for d in range(-4, 5):
                for reps in (1, 2, 3):
                    t = mk(b + d) + pair * reps + mk(rng.randint(20, lim))
                    yield case(alpha, t)
                    if alpha != 4:
                        yield auto(t)
        # nothing but two-unit characters
        for n in list(range(lim // 2 - 1, lim // 2 + 6)) + [ONEL[alpha],
                                                            2 * lim + 1]:
            yield case(alpha, pair * n)
            yield case(alpha, mk(1) + pair * n)
            # ends exactly with one
            yield case(alpha, mk(2 * lim - 2) + pair)
            yield case(alpha, mk(2 * lim - 1) + pair)
    # escape and surrogate look-alikes in the other alphabets
    for b in (67, 134, 201):
        for ch in ('\x1b', '\u1b00', '\u001b', '\ud7ff', '\ue000'):
            yield case(8, ucs2_text(rng, b - 1, 0) + ch + ucs2_text(rng, 90, 0))
    for b in (134, 268):
        for ch in (b'\x1b', b'\xd8', b'\xdb', b'\x1b\x1b'):
            yield case(4, octets(rng, b - len(ch)) + ch + octets(rng, 80))
    for parts in ([17, 100, 215, 216, 224, 255] if not ctx.thorough else
                  range(4, 256, 3)):
        yield case(0, gsm_text(rng, 153 * parts, 0))
        yield case(4, octets(rng, 134 * parts))
        yield case(8, ucs2_text(rng, 67 * parts, 0))


def nontrivial(c, rs):
    return json.dumps(c['x'])


def judge(c, rs, ctx):
    alpha, text = c['x']
    r = rs[0]
    if not r.ok:
        yield 'refused', '%d characters, coding %d: %r' % (len(text), alpha, r)
        return
    rows = r.val[0]
    ctx.hit('multipart', len(rows) > 1)
    out = []
    order = []
    for row in rows:
        try:
            p = tpdu.parse_submit(row[0])
        except tpdu.Bad as e:
            yield 'malformed', ('%s: %s (a part must be decodable on its own)'
                                % (row[0], e))
            return
        if tpdu.alphabet(p['dcs']) != alpha:
            yield 'alphabet', 'part in coding %r' % p['dcs']
            return
        t = p['text'].decode('latin-1') if alpha == 4 else p['text']
        if len(rows) > 1:
            ies = [d for i, d in p['ies'] if i == 0 and len(d) == 3]
            if len(ies) != 1:
                yield 'concat-ie', 'no concatenation header in %s' % row[0]
                return
            order.append(ies[0][2])
        out.append(t)
        ctx.hit('boundary_pairs', len(rows) > 1 and alpha != 4 and
                p['units'] == LIM[alpha] - 1)
    got = ''.join(out)
    if len(rows) > 1:
        if sorted(order) != list(range(1, len(rows) + 1)):
            yield 'sequence', 'sequence numbers %r' % order[:20]
            return
        got = ''.join(t for _, t in sorted(zip(order, out)))
    if got != text:
        k = next((i for i, (a, b) in enumerate(zip(got, text)) if a != b),
                 min(len(got), len(text)))
        yield 'text', ('the parts join to %d characters instead of %d, first '
                       'difference at %d' % (len(got), len(text), k))
