"""C18 WAP pushes are recognised and their MMS notifications extracted"""
from ..core import S, U, A
from ..mmsgen import *
from ..gen import scale, number, octets
from ..ref import wsp, tpdu
import json

RULE = ('WSP Push PDUs written by the reference model: every length of WSP '
        'headers 1-400 and at the uintvar borders, notifications of random '
        'headers; the same cut into 1-20 SMS-DELIVER parts that arrive in any '
        'order; recognition over all 256 PDU types and short data; distinct = '
        'different pushes')
NEED = {'extracted': 900, 'sms': 250, 'multipart': 120, 'lengths': 380,
        'recognised': 300, 'not_push': 400, 'notification': 300,
        'other_push': 100}


def wsp_headers(rng, n):
    """content type and headers of exactly n octets (n >= 1)"""
    b = b'\xbe'
    if n == 1:
        return b
    if n == 2:
        return b'x\0'
    ct = wsp.text('application/vnd.wap.mms-message')
    if n >= len(ct) and rng.random() < .5:
        b = ct
    if n - len(b) >= 2 and rng.random() < .7:
        b += b'\xaf\x84'
    while n - len(b) >= 5 and rng.random() < .8:
        k = rng.randint(5, min(n - len(b), 80))
        b += b'x' + bytes(rng.choice(b'abcdef') for _ in range(1)) + b'\0'
        b += bytes(rng.randint(33, 126) for _ in range(k - 4)) + b'\0'
    left = n - len(b)
    if left == 1:
        return wsp_headers(rng, n)
    if left:
        # X-Wap-Content-URI
        b += b'\xb0' + bytes(rng.randint(33, 126)
                             for _ in range(left - 2)) + b'\0'
    assert len(b) == n
    return b


NOTIF = ['Message-Type', 'Transaction-Id', 'MMS-Version', 'From', 'Subject',
         'Message-Class', 'Message-Size', 'Expiry', 'Content-Location']


def notification(rng):
    if rng.random() < .6:
        names = [n for n in NOTIF if rng.random() < .9]
    else:
        names = rng.sample(NAMES, rng.randint(1, 8))
    bs, hs = head(rng, names)
    return b''.join(bs), hs


def push(rng, n):
    h = wsp_headers(rng, n)
    m, hs = notification(rng)
    ln = wsp.uintvar(n)
    if rng.random() < .05:
        ln = b'\x80' + ln       # leading zeros are allowed
    return bytes([rng.randrange(256), 6]) + ln + h + m, hs


def sms(rng, data):
    """SMS-DELIVER PDUs that carry data on the WAP push port, shuffled"""
    snd = ('num', number(rng))
    big = rng.random() < .4
    ports = b'\x05\x04\x0b\x84' + bytes(rng.randrange(256) for _ in range(2))
    dcs = rng.choice([0x04, 0x04, 0xf5, 0xf4])
    one = 140 - 1 - len(ports)
    if len(data) <= one and rng.random() < .7:
        parts = [(ports, data)]
    else:
        room = one - (6 if big else 5)
        size = room if rng.random() < .5 else rng.randint(
            max(1, len(data) // 200 + 1), room)
        chunks = [data[i:i + size] for i in range(0, len(data), size)]
        if len(chunks) > 255:
            chunks = [data[i:i + room] for i in range(0, len(data), room)]
        ref = rng.randrange(65536 if big else 256)
        parts = []
        for i, c in enumerate(chunks):
            if big:
                e = b'\x08\x04' + ref.to_bytes(2, 'big')
            else:
                e = b'\x00\x03' + bytes([ref])
            e += bytes([len(chunks), i + 1])
            parts.append((e + ports if rng.random() < .5 else ports + e, c))
        rng.shuffle(parts)
    return [S(tpdu.deliver(oa=snd, dcs=dcs, alpha=4, text=c, udh=u).hex())
            for u, c in parts]


def gen(rng, ctx):
    sizes = list(range(1, 401)) + [16382, 16383, 16384, 16385]
    for n in sizes * scale(ctx, 1, 5):
        d, hs = push(rng, n)
        yield {'s': [['h', None, 'push', [S(d)]],
                     ['h', None, 'is_push', [S(d)]]], 'x': ['one', hs, n]}
    for _ in range(scale(ctx, 600, 8000)):
        n = rng.choice([1, 3, 6, 34, 34, rng.randint(1, 60), 127, 128, 200])
        d, hs = push(rng, n)
        yield {'s': [['h', None, 'push', [S(d)]],
                     ['h', None, 'is_push', [S(d)]]], 'x': ['one', hs, n]}
    for _ in range(scale(ctx, 500, 6000)):
        n = rng.choice([1, 3, 34, rng.randint(1, 60), 128])
        d, hs = push(rng, n)
        ps = sms(rng, d)
        yield {'s': [['h', None, 'push_sms', [ps]]],
               'x': ['sms', hs, len(ps)]}
    for t in range(256):
        for tail in (b'', b'\x01\xbe', octets(rng, 5)):
            d = bytes([rng.randrange(256), t]) + tail
            yield {'s': [['h', None, 'is_push', [S(d)]]],
                   'x': ['is', t == 6]}
    for d in (b'', b'\x06', b'\x00', b'\x06\x05', b'\x06\x07\x06'):
        yield {'s': [['h', None, 'is_push', [S(d)]]], 'x': ['is', False]}
    for v in (1, None, [1, 6], A(b'\x01\x06\x01')):
        yield {'s': [['h', None, 'is_push', [v]]], 'x': ['type']}


def nontrivial(c, rs):
    return json.dumps(c['s'])


def judge(c, rs, ctx):
    x, r = c['x'], rs[0]
    if x[0] == 'is':
        if not r.ok or r.val is not x[1]:
            yield 'recognise', '%r: %r' % (c['s'][0][3], r)
        ctx.hit('recognised' if x[1] else 'not_push')
        return
    if x[0] == 'type':
        if not r.isa('TypeError'):
            yield 'type', repr(r)
        return
    if not r.ok:
        yield 'refused', repr(r)
        return
    bad = wrong_headers(r.val['headers'], x[1])
    if bad:
        yield 'headers', repr([(n, norm(r.val['headers'].get(n)),
                                x[1].get(n)) for n in bad])
    want = 'From' in x[1] and 'Content-Location' in x[1]
    ctx.hit('notification' if want else 'other_push')
    if r.val['isn'] is not want:
        yield 'notification', '%r of %r' % (r.val['isn'], sorted(x[1]))
    if x[0] == 'one':
        ctx.hit('extracted')
        ctx.see('lengths', x[2])
        ctx.hit('recognised')
        if rs[1].val is not True:
            yield 'recognise', repr(rs[1])
    else:
        ctx.hit('sms')
        if x[2] > 1:
            ctx.hit('multipart')
        if r.val['is'] is not True or r.val['port'] != 2948:
            yield 'recognise', repr(r)
