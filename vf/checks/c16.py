"""C16 status reports are decoded exactly"""
from ..core import S, U
from ..gen import *
from ..ref import tpdu
import calendar
import json

RULE = ('SMS-STATUS-REPORT PDUs: all 256 status octets and none, all 256 '
        'references, recipients of 1-20 digits (also *, #, a, b, c), both timestamps over '
        '1969-2068, first octet flags, SMSC forms, optional trailing '
        'parameters, undecodable timestamps, and SMS-DELIVERs of the same '
        'fields; distinct = different PDUs')
NEED = {'reports': 1200, 'status': 257, 'references': 256, 'delivers': 200,
        'bad_dates': 60, 'star_hash': 150}


def ts(rng):
    y = rng.randint(1969, 2068)
    m = rng.randint(1, 12)
    d = rng.randint(1, calendar.monthrange(y, m)[1])
    return (y, m, d, rng.randint(0, 23), rng.randint(0, 59),
            rng.randint(0, 59))


BAD = [b'\xff' * 7, b'\0' * 7, b'\x11\x31\x10\x10\x10\x10\x00',
       b'\x11\x20\x13\x10\x10\x10\x00', b'\x11\x20\x10\x42\x10\x10\x00',
       b'\x11\x20\x10\x10\x06\x10\x00']


def gen(rng, ctx):
    for i in range(scale(ctx, 1500, 30000)):
        st = [None] + list(range(256))
        st = st[i % 257] if i < 771 else rng.choice(
            [0, 0, 1, 2, 3, 0x20, 0x30, 0x40, 0x41, 0x60, 0x80, None])
        ref = i % 256
        csca = None if i % 4 == 0 else rng.choice(['', '+']) + dialled(
            rng, rng.randint(1, 20))
        num = dialled(rng, 1 + i % 20)
        plus = rng.random() < .6
        toa = 0x90 | rng.choice([0, 1, 1, 8]) if plus else rng.choice(
            [0x80, 0xA0, 0xB0, 0xC0]) | rng.choice([1, 0, 8])
        a, b = ts(rng), ts(rng)
        ba = tpdu.scts(*a, rng.randint(-56, 56))
        bb = tpdu.scts(*b, rng.randint(-56, 56))
        if rng.random() < .06:
            ba, a = rng.choice(BAD), None
        if rng.random() < .06:
            bb, b = rng.choice(BAD), None
        tail = b''
        if st is not None and rng.random() < .3:
            tail = rng.choice([b'\x01\x00', b'\x07\x00\x00\x05\xe8\x32\x9b\xfd\x06',
                               b'\x00', b'\x04\x00'])
        first = rng.choice([0x02, 0x06, 0x22, 0x26, 0x06])
        ct = csca and (0x90 if csca[0] == '+' else rng.choice(
            [0x80, 0xA0, 0xB0])) | rng.choice([1, 1, 1, 0, 8])
        p = tpdu.smsc(csca, ct) + bytes([first, ref, len(num), toa]) + \
            tpdu.addr_semi(num) + ba + bb
        if st is not None:
            p += bytes([st]) + tail
        h = p.hex().upper() if i % 2 else p.hex()
        yield {'s': [['h', None, 'deliver', [S(h)]]],
               'x': {'st': st, 'ref': ref, 'rcp': ('+' if plus else '') + num,
                     'a': a, 'b': b, 'csca': csca}}
    for i in range(scale(ctx, 250, 3000)):
        num = number(rng, 3, 12)
        b = tpdu.deliver(csca=None if i % 2 else '+123456',
                         oa=('num', num), first=i % 64 * 4 & 0xbc,
                         ts=tpdu.scts(*ts(rng), 0), text='report')
        yield {'s': [['h', None, 'deliver', [S(b.hex())]]],
               'x': {'deliver': num}}


def nontrivial(c, rs):
    return c['s'][0][3][0]['s']


def txt(a):
    return '' if a is None else '%02d/%02d/%02d %02d:%02d:%02d' % (
        a[0] % 100, *a[1:])


def judge(c, rs, ctx):
    x, r = c['x'], rs[0]
    h = c['s'][0][3][0]['s']
    if not r.ok:
        yield 'refused', '%s: %r' % (h, r)
        return
    v = r.val
    if 'deliver' in x:
        ctx.hit('delivers')
        if v['sr'] is not None or v['type'] == 3 or \
                v['number'] != x['deliver'] or v['text'] != 'report':
            yield 'deliver-as-report', '%s: %r' % (h, v)
        return
    ctx.hit('reports')
    ctx.see('status', x['st'])
    ctx.see('references', x['ref'])
    if set(x['rcp']) & set('*#abc'):
        ctx.hit('star_hash')
    if x['a'] is None or x['b'] is None:
        ctx.hit('bad_dates')
    sr = v['sr']
    if not isinstance(sr, dict) or v['type'] != 3:
        yield 'not-recognised', '%s: sr %r type %r' % (h, sr, v['type'])
        return
    da = x['a'] and ('dt', tuple(x['a']) + (0,), None)
    db = x['b'] and ('dt', tuple(x['b']) + (0,), None)
    for k, want in (('recipient', x['rcp']), ('scts', da), ('dt', db),
                    ('status', x['st'])):
        if sr.get(k, '?') != want:
            yield k, '%s is %r, not %r, in %s' % (k, sr.get(k), want, h)
    if v['date'] != da:
        yield 'date', '%r, not %r' % (v['date'], da)
    if v['csca'] != x['csca']:
        yield 'csca', '%r, not %r' % (v['csca'], x['csca'])
    cc = v['udh'] and v['udh']['concat']
    if not cc or cc[0] != x['ref']:
        yield 'reference', '%r, not %d' % (cc, x['ref'])
    elif not cc[3]:
        # TP-MR is one octet (TS 23.040, 9.2.3.6)
        yield 'reference', 'the reference %r has 8 bits' % cc
    if v['data'].get('ref') != x['ref'] or v['data']['sr'] != sr:
        yield 'data', repr(v['data'])
    want = 'SR-OK' if x['st'] == 0 else 'SR-STORED' if x['st'] == 0x30 else \
        'SR-UNKNOWN'
    if v['number'] != want:
        yield 'verdict', 'status %r: %r' % (x['st'], v['number'])
    want = '|'.join([x['rcp'], txt(x['a']),
                     txt(x['b']) if x['st'] in (0, None) else ''])
    if v['text'] != want:
        yield 'text', '%r, not %r, in %s' % (v['text'], want, h)
