"""C12 a received SMS is decoded exactly"""
from ..core import S, U
from ..gen import *
from ..ref import gsm, tpdu
import json

RULE = ('SMS-DELIVER PDUs of an independent encoder over: SMSC absent or of '
        '1-20 digits (also *, #, a, b, c), sender likewise or of 1-11 alphanumeric characters, '
        'every type of address, all 256 PIDs, every defined data coding octet, '
        'first octet flags, every text length of each alphabet, every '
        'GSM character and BMP block, with and without user data header; '
        'distinct = different PDUs')
NEED = {'alpha0': 1000, 'alpha4': 300, 'alpha8': 400, 'dcs': 108, 'pid': 256,
        'alnum': 150, 'with_udh': 300, 'star_hash': 150}
ASSUME = ['reserved and compressed coding groups are not decoded (undefined)']
SPECIAL = '\ufeff\ufffe\uffff\0 \n\r\xa0\u200b\u2028\u3000\ufffd\x1b@\ud7ff' \
    '\ue000'
DCS = {a: [d for d in range(256) if tpdu.alphabet(d) == a and
           not 0xF8 <= d <= 0xFB] for a in (0, 4, 8)}
TON = {0: 0x81, 2: 0xA1, 3: 0xB1, 4: 0xC1, 6: 0xE1, 1: 0x91}


def toa(rng, plus):
    npi = rng.choice([0, 1, 1, 1, 3, 8, 9])
    if plus:
        return 0x90 | npi
    return rng.choice([0x80, 0xA0, 0xB0, 0xC0, 0xE0]) | npi


def text(rng, alpha, n):
    if alpha == 0:
        return gsm_text(rng, n, rng.choice([0, .1, .5]))
    if alpha == 4:
        return octets(rng, n)
    return ucs2_text(rng, n, rng.choice([0, .15]))


def make(rng, alpha, t, dcs=None, pid=None, udh=None, senders=None, i=0,
         sender=None):
    plus = rng.random() < .6
    csca = None
    if rng.random() < .8:
        csca = ('+' if rng.random() < .7 else '') + dialled(
            rng, 1 + (i % 20))
    if senders is None:
        senders = rng.choice(['num', 'num', 'alpha'])
    if senders == 'num':
        num = dialled(rng, 1 + (i // 3) % 20)
        oa, ot = ('num', num), toa(rng, plus)
        want = ('+' if plus else '') + num
    else:
        k = 1 + i % 11
        want = sender or gsm_text(rng, k, rng.choice([0, .2]))
        oa, ot = ('alpha', want), rng.choice([0xD0, 0xD0, 0xD1, 0x50])
    if pid is None:
        pid = rng.randrange(256)
    if dcs is None:
        dcs = rng.choice(DCS[alpha] + [alpha] * 30)
    ts = (rng.randint(1970, 2067), rng.randint(1, 12), rng.randint(1, 28),
          rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    first = rng.choice([0x04, 0x00, 0x24, 0xA0, 0x84, 0x20, 0x80, 0x1c])
    b = tpdu.deliver(csca=csca, csca_toa=csca and toa(rng, csca[0] == '+'),
                     oa=oa, oa_toa=ot, pid=pid, dcs=dcs,
                     ts=tpdu.scts(*ts, 0), alpha=alpha, text=t, udh=udh,
                     first=first)
    h = b.hex()
    if rng.random() < .5:
        h = h.upper()
    tt = t.decode('latin-1') if isinstance(t, bytes) else t
    return {'s': [['h', None, 'deliver', [S(h)]]],
            'x': {'number': want, 'csca': csca, 'pid': pid, 'dcs': dcs,
                  'fmt': alpha, 'text': tt, 'ts': list(ts), 'kind': senders,
                  'udh': udh is not None}}


def some_udh(rng):
    k = rng.random()
    if k < .4:
        n = rng.randint(2, 255)
        return bytes([0, 3, rng.randrange(256), n, rng.randint(1, n)])
    if k < .6:
        return bytes([8, 4, rng.randrange(256), rng.randrange(256), 3, 2])
    if k < .8:
        return bytes([5, 4, 0x0b, 0x84, 0x23, 0xf0])
    n = rng.randint(0, 12)
    return bytes([0x70 + rng.randrange(15), n]) + octets(rng, n)


def gen(rng, ctx):
    i = 0
    for rep in range(scale(ctx, 1, 8)):
        # every length of every alphabet
        for alpha, mx in ((0, 160), (4, 140), (8, 70)):
            for n in range(mx + 1):
                for _ in range(3):
                    i += 1
                    yield make(rng, alpha, text(rng, alpha, n), i=i)
        # every GSM character at every phase
        for ch in gsm.ALL:
            for ph in rng.sample(range(8), 3):
                i += 1
                yield make(rng, 0, gsm_text(rng, ph) + ch +
                           gsm_text(rng, rng.randint(0, 9)), i=i)
        for alpha in (0, 4, 8):
            for d in DCS[alpha]:
                i += 1
                yield make(rng, alpha, text(rng, alpha, rng.randint(1, 40)),
                           dcs=d, i=i)
        for p in range(256):
            i += 1
            yield make(rng, 0, 'pid', pid=p, i=i)
        # senders
        for k in range(1, 12):
            for ch in range(10):
                i = k - 1
                yield make(rng, 0, 'x', senders='alpha', i=i)
        # with each character at an end
        for ch in gsm.ALL:
            for k in range(12 - (2 if ch in gsm.TWO else 1)):
                if ch in '@ \r\n\u00a1_' or rng.random() < .12:
                    a = gsm_text(rng, k)
                    yield make(rng, 0, 'x', senders='alpha', sender=a + ch)
                    yield make(rng, 0, 'x', senders='alpha', sender=ch + a)
        for k in range(60):
            yield make(rng, 8, 'ż', senders='num', i=k)
        for alpha, mx, chars in (
                (0, 160, '@ \r\n\f\u20ac'), (4, 140, '\0 \r\n\x1b\xff'),
                (8, 70, SPECIAL)):
            for j, ch in enumerate(chars):
                ns = range(mx - 1) if alpha == 0 and j < 4 else \
                    [0, mx - 2] + [rng.randrange(mx - 1) for _ in range(3)]
                for n in ns:
                    t = text(rng, alpha, n)
                    x = ch.encode('latin-1') if alpha == 4 else ch
                    i += 1
                    yield make(rng, alpha, rng.choice([t + x, x + t]), i=i)
                    if n < 2 or n == mx - 2:
                        yield make(rng, alpha, t + x, i=i)
                        yield make(rng, alpha, x + t, i=i)
                        yield make(rng, alpha, x * (mx // (
                            2 if ch in gsm.TWO and not alpha else 1)), i=i)
        # headers
        for k in range(400):
            i += 1
            alpha = rng.choice([0, 0, 4, 8])
            u = some_udh(rng)
            mx = {0: (140 - len(u) - 1) * 8 // 7, 4: 140 - len(u) - 1,
                  8: (140 - len(u) - 1) // 2}[alpha]
            n = rng.choice([0, mx, rng.randint(0, mx)])
            yield make(rng, alpha, text(rng, alpha, n), udh=u, i=i)
        # UCS2 blocks, octets
        for lo in range(0, 0x10000, 0x400):
            i += 1
            t = ''.join(chr(lo + rng.randrange(0x400)) for _ in range(20)
                        if not 0xd800 <= lo < 0xe000)
            yield make(rng, 8, t, i=i)
        for k in range(60):
            i += 1
            yield make(rng, 8, ''.join(astral_char(rng) for _ in range(
                rng.randint(1, 35))), i=i)
        for lo in range(0, 256, 32):
            i += 1
            yield make(rng, 4, bytes(range(lo, lo + 32)), i=i)


def nontrivial(c, rs):
    return c['s'][0][3][0]['s']


def judge(c, rs, ctx):
    x, r = c['x'], rs[0]
    if not r.ok:
        yield 'refused', '%s: %r' % (c['s'][0][3][0]['s'], r)
        return
    v = r.val
    ctx.hit('alpha%d' % x['fmt'])
    ctx.see('dcs', x['dcs'])
    ctx.see('pid', x['pid'])
    if x['kind'] == 'alpha':
        ctx.hit('alnum')
    if x['udh']:
        ctx.hit('with_udh')
    hexs = c['s'][0][3][0]['s']
    if x['kind'] == 'num' and set(x['number']) & set('*#abc'):
        ctx.hit('star_hash')
    for k in ('number', 'csca', 'pid', 'dcs', 'fmt', 'text'):
        if v[k] != x[k] or type(v[k]) is not type(x[k]):
            yield k, '%s is %a, not %a, in %s' % (k, v[k], x[k], hexs)
        if v['data'][k] != v[k]:
            yield 'data', 'data[%r] is %a' % (k, v['data'][k])
    want = ('dt', tuple(x['ts'] + [0]), None)
    if v['date'] != want:
        yield 'date', '%r, not %r, in %s' % (v['date'], want, hexs)
    if v['data']['date'] != v['date'] or v['data']['type'] != v['type'] or \
            v['data']['sr'] != v['sr']:
        yield 'data', repr(v['data'])
    if v['sr'] is not None or v['type'] is not None:
        yield 'type', 'sr %r type %r of an SMS-DELIVER' % (v['sr'], v['type'])
    if (v['udh'] is not None) != x['udh']:
        yield 'udh', 'udh %r' % v['udh']
    cc = v['udh'] and v['udh']['concat']
    got = [v['data'].get(k) for k in ('ref', 'cnt', 'seq')]
    if got != (cc[:3] if cc else [None] * 3):
        yield 'data', 'ref/cnt/seq %r of %r' % (got, v['udh'])
    if v['pdu'].lower() != hexs.lower():
        yield 'pdu', 'reads back as %s' % v['pdu']
