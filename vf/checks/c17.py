"""C17 decoding a PDU depends on nothing but its octets"""
from ..core import S, U, V
from ..gen import *
from ..ref import gsm, tpdu
from . import c12, c16
import json

RULE = ('families of one PDU (DELIVER, STATUS-REPORT; each alphabet, with and '
        'without header): lower/upper/mixed case, byte/unicode strings, odd '
        'trailing digit in both modes; histories of 2-8 PDUs, good and bad, '
        'assigned to one object and each decoded by a new one; every '
        'truncation, single-octet damages, random octets; distinct = '
        'different PDU histories')
NEED = {'same': 600, 'odd_refused': 100, 'odd_lax': 100, 'reassigned': 600,
        'damaged': 3000, 'damaged_result': 150, 'damaged_error': 1000}


class Box:
    thorough = False


def pdus(rng, n):
    out = []
    for i in range(n):
        if rng.random() < .8:
            alpha = rng.choice([0, 0, 4, 8])
            u = c12.some_udh(rng) if rng.random() < .4 else None
            mx = {0: 120, 4: 100, 8: 50}[alpha]
            t = c12.text(rng, alpha, rng.choice([0, 1, rng.randint(0, mx)]))
            c = c12.make(rng, alpha, t, udh=u, i=rng.randrange(1000))
            out.append(c['s'][0][3][0]['s'])
        else:
            num = digits(rng, rng.randint(1, 15))
            p = tpdu.smsc(rng.choice([None, '+34600000000'])) + bytes(
                [6, rng.randrange(256), len(num), 0x91]) + \
                tpdu.addr_semi(num) + tpdu.scts(*c16.ts(rng), 0) + \
                tpdu.scts(*c16.ts(rng), 0) + bytes([rng.choice([0, 1, 0x30])])
            out.append(p.hex())
    return out


def mixed(rng, h):
    return ''.join(rng.choice([c.upper(), c.lower()]) for c in h)


def gen(rng, ctx):
    for h in pdus(rng, scale(ctx, 250, 4000)):
        odd = h + rng.choice('0123456789abcdefF')
        yield {'s': [['h', None, 'deliver', [S(h.lower())]],
                     ['h', None, 'deliver', [S(h.upper())]],
                     ['h', None, 'deliver', [S(mixed(rng, h))]],
                     ['h', None, 'deliver', [U(h)]],
                     ['h', None, 'deliver', [S(h), False]],
                     ['h', None, 'deliver', [S(odd), False]],
                     ['h', None, 'deliver', [S(odd), True]]], 'x': ['same']}
    for i in range(scale(ctx, 200, 3000)):
        hs = pdus(rng, rng.randint(2, 8))
        for k in range(len(hs)):
            if rng.random() < .15:
                hs[k] = hs[k][:rng.randrange(0, len(hs[k]))]
            elif rng.random() < .05:
                hs[k] = 'zz' + hs[k]
            if k and rng.random() < .25:
                # the same one again, perhaps in another spelling
                hs[k] = rng.choice([hs[k - 1], hs[k - 1].upper(),
                                    hs[k - 1].lower()])
        first = pdus(rng, 1)[0]
        st = [['c', 'd', 'messaging.sms:SmsDeliver', [S(first)]]]
        ops = []
        for h in hs:
            st.append(['h', None, 'spoil_some', [V('$d'), [S(a) for a in (
                'text', 'number', 'date') if rng.random() < .15]]])
            st.append(['s', '$d.pdu', S(h)])
            st.append(['h', None, 'dview', [V('$d')]])
            st.append(['h', None, 'deliver', [S(h)]])
        yield {'s': st, 'x': ['hist', len(hs)]}
    # damage
    base = pdus(rng, scale(ctx, 24, 150))
    for h in base:
        st = [['h', None, 'deliver', [S(h[:n]), True]]
              for n in range(0, len(h), 2)]
        st.append(['h', None, 'deliver', [S(h)]])
        st.append(['h', None, 'deliver', [S(h)]])
        yield {'s': st, 'x': ['damage']}
    for h in pdus(rng, scale(ctx, 60, 600)):
        st = []
        for _ in range(30):
            g = h
            for _ in range(rng.choice([1, 1, 1, 2, 4])):
                k = rng.randrange(len(g) // 2) * 2
                m = rng.random()
                if m < .7:
                    g = g[:k] + '%02x' % rng.choice(
                        [0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)]) + \
                        g[k + 2:]
                elif m < .85:
                    g = g[:k] + g[k + 2:]
                else:
                    g = g[:k] + '%02x' % rng.randrange(256) + g[k:]
            st.append(['h', None, 'deliver', [S(g), rng.random() < .5]])
        st.append(['h', None, 'deliver', [S(h)]])
        st.append(['h', None, 'deliver', [S(h)]])
        yield {'s': st, 'x': ['damage']}
    for i in range(scale(ctx, 20, 300)):
        st = [['h', None, 'deliver', [S(octets(rng, rng.choice(
            [0, 1, 2, 5, 20, 60, 170, 255])).hex())]] for _ in range(40)]
        st.append(['h', None, 'deliver', [S(rng.choice(
            ['', '0', 'g', 'xx', '0x', '-1', '00 1', 'é'.encode().decode(
                'latin-1') * 4]))]])
        h = pdus(rng, 1)[0]
        st.append(['h', None, 'deliver', [S(h)]])
        st.append(['h', None, 'deliver', [S(h)]])
        yield {'s': st, 'x': ['damage']}


def nontrivial(c, rs):
    return json.dumps(c['s'])


def strip(v):
    """a view without the text form of the PDU itself"""
    v = dict(v)
    v.pop('pdu')
    return v


def judge(c, rs, ctx):
    k = c['x'][0]
    if k == 'same':
        if not rs[0].ok:
            yield 'refused', '%s: %r' % (c['s'][0][3][0]['s'], rs[0])
            return
        a = strip(rs[0].val)
        for i, what in ((1, 'upper case'), (2, 'mixed case'), (3, 'unicode'),
                        (4, 'lax mode'), (5, 'odd length in lax mode')):
            ctx.hit('same')
            if i == 5:
                ctx.hit('odd_lax')
            if not rs[i].ok or strip(rs[i].val) != a:
                yield 'differs', '%s: %r, not %r' % (what, rs[i], a)
                return
        ctx.hit('odd_refused')
        if not rs[6].isa('ValueError'):
            yield 'odd-accepted', repr(rs[6])
    elif k == 'hist':
        if not rs[0].ok:
            yield 'refused', repr(rs[0])
            return
        for i in range(c['x'][1]):
            s, got, want = rs[2 + 4 * i:5 + 4 * i]
            ctx.hit('reassigned')
            if s.ok != want.ok:
                yield 'reassign', ('assigned: %r, in a new object: %r' %
                                   (s, want))
            elif s.ok and (not got.ok or got.val != want.val):
                d = [n for n in want.val if not got.ok or
                     got.val[n] != want.val[n]]
                yield 'stale', '%r: %r, not %r' % (
                    d, got, {n: want.val[n] for n in d})
            elif not s.ok and (not s.ordinary or s.exc != want.exc):
                yield 'reassign', '%r / %r' % (s, want)
    else:
        for st, r in zip(c['s'][:-2], rs[:-2]):
            ctx.hit('damaged')
            if r.ok:
                ctx.hit('damaged_result')
            elif r.ordinary:
                ctx.hit('damaged_error')
            else:
                yield 'breakdown', '%r: %r' % (st[3], r)
        a, b = rs[-2:]
        if not a.ok or not b.ok or a.val != b.val:
            yield 'after-damage', '%r / %r' % (a, b)
