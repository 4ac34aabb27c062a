"""C14 user data headers are decoded exactly"""
from ..core import S, U
from ..gen import *
from ..ref import gsm, tpdu
import json

RULE = ('sequences of 0-6 information elements (concatenation 8/16 bit, ports '
        '8/16 bit, others) in every order, some of them repeated, on their own and in SMS-DELIVERs '
        'of each alphabet with every header length up to 139; distinct = '
        'different headers; non-trivial = at least one element')
NEED = {'udh': 1500, 'concat8': 300, 'concat16': 300, 'ports8': 200,
        'ports16': 200, 'other': 500, 'texts': 500, 'lengths': 136,
        'ref16_big': 100, 'repeated': 150, 'exclusive': 150}
# TS 23.040, 9.2.3.24: of these the last occurrence counts
ONCE = [0, 4, 5, 8, 6, 7, 0x24, 0x25]


def ies(rng, total=None):
    """elements with distinct identifiers, optionally of exactly total octets"""
    out = []
    kinds = ['c8', 'c16', 'p8', 'p16', 'o', 'o', 'o']
    rng.shuffle(kinds)
    if rng.random() < .8:
        # the two kinds of one element do not make sense together
        a, b = rng.choice([('c8', 'c16'), ('c16', 'c8')])
        kinds.remove(b)
        a, b = rng.choice([('p8', 'p16'), ('p16', 'p8')])
        kinds.remove(b)
    used = set()
    left = 139 if total is None else total
    for k in kinds[:rng.randint(1, 6)]:
        if k == 'c8':
            n = rng.randint(1, 255)
            e = (0, bytes([rng.randrange(256), n, rng.randint(1, n)]))
        elif k == 'c16':
            n = rng.randint(1, 255)
            e = (8, bytes([rng.randrange(256), rng.randrange(256), n,
                           rng.randint(1, n)]))
        elif k == 'p8':
            e = (4, bytes([rng.randrange(256), rng.randrange(256)]))
        elif k == 'p16':
            e = (5, bytes(rng.randrange(256) for _ in range(4)))
        else:
            i = rng.choice([1, 3, 6, 7, 9, 6, 7, 0x24, 0x25, 0x0a, 0x20, 0x24, 0x25, 0x70, 0xc0,
                            0xff, rng.randrange(10, 256)])
            if i in used:
                continue
            e = (i, octets(rng, rng.randint(0, 12)))
        if 2 + len(e[1]) > left:
            continue
        used.add(e[0])
        left -= 2 + len(e[1])
        out.append(e)
    if total is not None:
        # pad with unknown elements to the total
        i = 0x80
        while left >= 2:
            n = left - 2
            while i in used:
                i += 1
            if n > 60 and n != 61:
                n = 60
            used.add(i)
            out.insert(rng.randint(0, len(out)), (i, octets(rng, n)))
            left -= 2 + n
        if left:
            return None
    return out


def again(rng, l):
    """with elements that occur more than once"""
    for i, d in rng.sample(l, min(len(l), rng.choice([1, 1, 2]))):
        if i in (0, 8):
            n = rng.randint(1, 255)
            e = octets(rng, len(d) - 2) + bytes([n, rng.randint(1, n)])
        elif i in (4, 5):
            e = octets(rng, len(d))
        elif i in ONCE:
            e = octets(rng, rng.choice([0, 1, len(d), len(d) + 1]))
        else:
            continue
        l.insert(rng.randint(0, len(l)), (i, e))
    return l


def enc(l):
    return b''.join(bytes([i, len(d)]) + d for i, d in l)


def gen(rng, ctx):
    for _ in range(scale(ctx, 1100, 20000)):
        l = ies(rng)
        if rng.random() < .35:
            l = again(rng, l)
        yield {'s': [['h', None, 'udh_bytes', [S(enc(l).hex())]]],
               'x': ['udh', [[i, d.hex()] for i, d in l], None, None]}
    # every value of each octet of the fields
    for b in range(256):
        for l in ([(0, bytes([b, 255, 255 - b or 1]))],
                  [(8, bytes([b, 255 - b, b or 1, 1]))],
                  [(4, bytes([b, 255 - b]))],
                  [(5, bytes([b, 255 - b, 255 - b, b]))]):
            yield {'s': [['h', None, 'udh_bytes', [S(enc(l).hex())]]],
                   'x': ['udh', [[i, d.hex()] for i, d in l], None, None]}
    # in messages, every length of header
    for rep in range(scale(ctx, 2, 10)):
        for alpha in (0, 4, 8):
            for hl in list(range(2, 140)) + [5, 6, 5, 6, 11, 12]:
                l = ies(rng, hl)
                if l is None or len(enc(l)) != hl:
                    continue
                u = enc(l)
                left = 140 - 1 - hl
                mx = {0: (1120 - ((hl + 1) * 8 + 6) // 7 * 7) // 7, 4: left,
                      8: left // 2}[alpha]
                n = rng.choice([0, mx, mx, rng.randint(0, mx)])
                t = gsm_text(rng, n, rng.choice([0, .2])) if alpha == 0 else \
                    octets(rng, n) if alpha == 4 else ucs2_text(rng, n)
                b = tpdu.deliver(dcs=alpha, alpha=alpha, text=t, udh=u,
                                 first=rng.choice([0x44, 0x40, 0x64, 0xe0]))
                tt = t.decode('latin-1') if isinstance(t, bytes) else t
                yield {'s': [['h', None, 'deliver', [S(b.hex())]]],
                       'x': ['sms', [[i, d.hex()] for i, d in l], tt, hl]}


def nontrivial(c, rs):
    if c['x'][1]:
        return json.dumps(c['x'][1])


def judge(c, rs, ctx):
    kind, l, text, hl = c['x']
    r = rs[0]
    l = [(i, bytes.fromhex(d)) for i, d in l]
    if not r.ok:
        yield 'refused', '%r: %r' % (l, r)
        return
    if kind == 'sms':
        ctx.hit('texts')
        ctx.see('lengths', hl)
        if r.val['text'] != text:
            yield 'text', 'header of %d octets: %a, not %a' % (
                hl, r.val['text'], text)
        u = r.val['udh']
        if u is None:
            yield 'no-header', repr(l)
            return
    else:
        u = r.val
    ctx.hit('udh')
    concat = ports = None
    d = dict(l)
    if len(d) < len(l):
        ctx.hit('repeated')
    if 0 in d and 8 in d or 4 in d and 5 in d:
        ctx.hit('exclusive')
    for i, b in l:
        if i == 0:
            concat = [b[0], b[1], b[2], True]
            ctx.hit('concat8')
        elif i == 8:
            concat = [b[0] << 8 | b[1], b[2], b[3], False]
            ctx.hit('concat16')
            if b[0]:
                ctx.hit('ref16_big')
        elif i == 4:
            ports = [b[0], b[1], True]
            ctx.hit('ports8')
        elif i == 5:
            ports = [b[0] << 8 | b[1], b[2] << 8 | b[3], False]
            ctx.hit('ports16')
        else:
            ctx.hit('other')
    if u['concat'] != concat:
        yield 'concat', '%r, not %r, of %r' % (u['concat'], concat, l)
    if u['ports'] != ports:
        yield 'ports', '%r, not %r, of %r' % (u['ports'], ports, l)
    got = {k: bytes(v) for k, v in u['headers'].items()}
    if got != d:
        yield 'elements', '%r, not %r' % (got, d)
