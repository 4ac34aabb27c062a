"""C24 MMS headers survive an encode and decode"""
from ..core import S, U, A, D, V, DT
from ..mmsgen import *
from ..gen import scale
from ..ref import wsp
import json

RULE = ('MMSMessage objects with random sets of headers (defaults replaced or '
        'deleted, X-Mms- forms, application headers, 0-2 parts), encoded and '
        'read by the reference reader and by the library; values that no '
        'header can carry; header kinds without encoder; distinct = '
        'different header sets')
NEED = {'messages': 900, 'headers': 6000, 'names': 13, 'refused': 60,
        'no_encoder': 60, 'replaced': 120, 'defaulted': 100}
ENC = ['Bcc', 'Cc', 'To', 'Subject', 'Response-Text', 'From', 'Message-ID',
       'Message-Size', 'Status']


def L(n):
    return n if abs(n) < 2 ** 31 else {'long': str(n)}


def value_for(rng, n):
    if n in ('Message-ID', 'Transaction-Id'):
        return text(rng, first=1)
    if n == 'Message-Size':
        return rng.choice([0, 0, 1, 127, 128, 255, 256, 65535, 65536, 10 ** 6,
                           2 ** 31 - 1, 2 ** 31, 2 ** 40, 2 ** 240 - 1,
                           rng.getrandbits(32) or 1])
    if n == 'Status':
        return rng.choice(sorted(wsp.STATUS.values()))
    if n == 'Message-Type':
        return rng.choice(sorted(wsp.MTYPE.values()))
    if n == 'MMS-Version':
        return rng.choice(['1.0', '1.1', '1.2', '1.3', '2', '7.14', '3.0'])
    if n == 'From' and rng.random() < .3:
        return ''
    return text(rng)


def st(hs, dels=(), ct=None, parts=0, rng=None):
    s = [['c', 'm', 'messaging.mms.message:MMSMessage', []]]
    for n in dels:
        s.append(['di', '$m.headers', S(n)])
    for n, v in hs:
        s.append(['si', '$m.headers', S(n), v])
    if ct:
        s.append(['si', '$m.headers', S('Content-Type'),
                  {'t': [S(ct), D({})]}])
    for k in range(parts):
        s.append(['c', 'p', 'messaging.mms.message:DataPart', []])
        s.append(['c', None, '$p.set_data', [S(payload(rng)),
                                             S('text/plain')]])
        s.append(['c', None, '$m.add_data_part', [V('$p')]])
    s.append(['h', None, 'mms_rt', [V('$m')]])
    return s


def py(v):
    return L(v) if isinstance(v, int) else S(v)


def gen(rng, ctx):
    for i in range(scale(ctx, 1200, 20000)):
        hs, exp = [], {'Message-Type': 'm-send-req', 'Transaction-Id': '1234',
                       'MMS-Version': '1.0'}
        dels, free = [], []
        for n in ('Message-Type', 'Transaction-Id', 'MMS-Version'):
            k = rng.random()
            if k < .3:
                continue
            if k < .4:
                dels.append(n)
                if n == 'Transaction-Id':
                    free.append(n)
                exp[n] = {'Message-Type': 'm-retrieve-conf',
                          'MMS-Version': '1.0'}.get(n)
                continue
            v = value_for(rng, n)
            exp[n] = v
            if k < .6:
                x = 'X-Mms-' + n if n != 'MMS-Version' else 'X-Mms-Version'
                hs.append((x, py(v)))
            else:
                hs.append((n, py(v)))
        names = ENC[:]
        rng.shuffle(names)
        for n in names[:rng.randint(0, len(names))]:
            v = value_for(rng, n)
            exp[n] = v
            hs.append((n, py(v)))
        for _ in range(rng.choice([0, 0, 1, 3])):
            n = 'X-' + token(rng, 5)
            v = text(rng, first=1)
            if n not in exp:
                exp[n] = v
                hs.append((n, S(v)))
        # an early duplicate: only the last assignment counts
        if hs and rng.random() < .2:
            n, v = rng.choice(hs)
            w = value_for(rng, n if n in wsp.MMSN else 'Subject')
            if n in ENC:
                hs.insert(0, (n, py(w)))
        if exp['Message-Type'] == 'm-send-req' and \
                not {'To', 'Cc', 'Bcc'} & set(exp):
            exp['Message-Type'] = 'm-retrieve-conf'
        ct = rng.choice([None, 'application/vnd.wap.multipart.related',
                         'application/vnd.wap.multipart.alternative',
                         'multipart/mixed'])
        parts = rng.choice([0, 0, 1, 2])
        yield {'s': st(hs, dels, ct, parts, rng),
               'x': ['rt', exp, ct or MIXED[0], free, parts,
                     sum(n[:6] == 'X-Mms-' for n, _ in hs)]}
    bad = [('Message-Size', -1), ('Message-Size', S('12')),
           ('Message-Size', {'long': str(2 ** 240)}),
           ('Message-Size', None), ('To', None), ('To', 5), ('Subject', 1),
           ('From', 7), ('From', None), ('Message-ID', 3),
           ('MMS-Version', {'f': 1.0}), ('MMS-Version', 1),
           ('X-Foo', 5), ('X-Foo', None), ('X-a b', S('v')),
           ('X-(', S('v')), ('X-\xe9', S('v')), ('X:', S('v')),
           ('Content-Type', S('text/plain'))]
    for n in ('To', 'Cc', 'Bcc', 'Subject', 'From', 'Response-Text',
              'Message-ID', 'Transaction-Id', 'X-Foo'):
        bad += [(n, S('a\0b')), (n, S('\0')), (n, U('中')), (n, U('aЖ')),
                (n, U('😀')), (n, [S('+123'), S('+456')]),
                (n, {'t': [S('+123'), S('+456')]})]
    for n, v in bad:
        yield {'s': st([(n, v), ('To', S('1'))] if n != 'To' else [(n, v)]),
               'x': ['bad', n, repr(v)]}
    for _ in range(scale(ctx, 10, 100)):
        for n in ('Date', 'Delivery-Report', 'Read-Reply', 'Report-Allowed',
                  'Content-Location', 'Priority', 'Message-Class', 'Expiry',
                  'Delivery-Time', 'Sender-Visibility', 'Response-Status'):
            b, v = value(rng, n)
            p = v
            if isinstance(v, list) and v[0] == 'dt':
                p = DT(*v[1])
            elif isinstance(v, list):
                p = {'t': [S(v[0]), L(v[1])]}
            elif not isinstance(v, bool):
                p = py(v)
            yield {'s': st([(n, p), ('To', S('1'))]), 'x': ['maybe', n, v]}


def nontrivial(c, rs):
    return json.dumps(c['s'])


def judge(c, rs, ctx):
    x, r = c['x'], rs[-1]
    if x[0] == 'bad':
        if r.ok or not r.ordinary:
            yield 'accepted', '%s %s: %r' % (x[1], x[2], r)
        else:
            ctx.hit('refused')
        return
    if x[0] == 'maybe':
        ctx.hit('no_encoder')
        if r.ok:
            try:
                hs = dict(wsp.read_mms(r.val['bytes'])[0])
            except wsp.Bad as e:
                yield 'encode', '%s: %s' % (x[1], e)
                return
            back = r.val['back']
            if x[1] not in hs or not isinstance(back, dict) or \
                    norm(back['headers'].get(x[1])) != norm(x[2]):
                yield 'written-otherwise', '%s %r: %r' % (x[1], x[2], back)
        elif not r.ordinary:
            yield 'accepted', repr(r)
        return
    exp, ct, free, parts, repl = x[1:]
    if not r.ok:
        yield 'refused', '%r: %r' % (exp, r)
        return
    ctx.hit('messages')
    ctx.hit('replaced', repl)
    ctx.hit('defaulted', len(c['s']) and sum(s[0] == 'di' for s in c['s']))
    b = r.val['bytes']
    try:
        hs, ps = wsp.read_mms(b)
    except wsp.Bad as e:
        yield 'encode', '%s: %.400s' % (e, b.hex())
        return
    names = [n for n, _ in hs]
    if len(set(names)) != len(names):
        yield 'repeated', repr(names)
    if names[:3] != ['Message-Type', 'Transaction-Id', 'MMS-Version'] or \
            names[-1] != 'Content-Type':
        yield 'order', repr(names)
    if ps is None or len(ps) != parts + 1:
        yield 'parts', repr(ps and len(ps))
    got = dict(hs)
    back = r.val['back']
    if not isinstance(back, dict):
        yield 'decode', repr(back)
        return
    want = dict(exp, **{'Content-Type': [ct, []]})
    for n in set(got) | set(want):
        ctx.hit('headers')
        ctx.see('names', n if n in wsp.MMSN else 'X')
        g, w = norm(got.get(n)), want.get(n)
        bk = norm(back['headers'].get(n))
        if n in free:
            if not g or g != bk:
                yield 'header', '%s: %r, decoded %r' % (n, g, bk)
            continue
        bw = w
        if n == 'Content-Type':
            bw = [ct, {}]
        elif n == 'From' and w == '':
            w, bw = None, '<not inserted>'
        if n not in got or n not in want or g != w:
            yield 'header', '%s: wrote %r, not %r' % (n, g, w)
        elif bk != bw:
            yield 'header-back', '%s: decoded %r, not %r' % (n, bk, bw)
    bad = set(back['headers']) - set(want)
    if bad:
        yield 'extra', repr(bad)
