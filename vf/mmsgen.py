"""Generators of MMS PDUs (octets written by the reference model, with the
values that decoding has to give) and of MMS messages to encode."""
import datetime
from .core import S, A, D
from .ref import wsp

TOK = ''.join(c for c in map(chr, range(33, 127)) if wsp.is_token(c))
EPOCH = datetime.datetime(1970, 1, 1)


def norm(v):
    """tuples and lists alike, for comparisons across JSON"""
    if isinstance(v, (tuple, list)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, bytes):
        return v.decode('latin-1')
    return v


def date(n):
    d = EPOCH + datetime.timedelta(seconds=n)
    return ['dt', [d.year, d.month, d.day, d.hour, d.minute, d.second, 0],
            None]


def secs(rng):
    return rng.choice([0x3fffffff, 1, 127, 128, 255, 256, 65535, 65536,
                       2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32,
                       rng.getrandbits(rng.randint(1, 33))]) or 1


def delta(rng):
    return rng.choice([0, 1, 30, 31, 127, 128, 255, 256, 65535, 72000,
                       2 ** 31 - 1, 2 ** 31, rng.getrandbits(rng.randint(1, 40))
                       ])


def token(rng, n=None):
    n = n or rng.choice([1, 2, 5, 12, 40])
    return ''.join(rng.choice(TOK) for _ in range(n))


def text(rng, n=None, first=32):
    """latin-1 text without NUL; the first character is a printable one"""
    k = rng.random()
    if n is None:
        n = rng.choice([0, 1, 2, 5, 10, 20, 29, 30, 31, 32, 60, 126, 127, 128,
                        200, 300])
    if not n:
        return ''
    if k < .2:
        s = '+34600%09d/TYPE=PLMN' % rng.randrange(10 ** 9)
    elif k < .35:
        s = 'http://mms.example.org/?' + ''.join(
            rng.choice('abcXYZ0189&=%-_') for _ in range(n))
    elif k < .55:
        s = ''.join(rng.choice('abc defg, .!') for _ in range(n))
    elif k < .7:
        s = ''.join(chr(rng.randint(33, 126)) for _ in range(n))
    elif k < .8:
        s = ('é中Ж€' * n).encode('utf-8')[:n].decode('latin-1')
    else:
        s = ''.join(chr(rng.randint(1, 255)) for _ in range(n))
    c = ord(s[0])
    if c < first or c == 127 or c == 34 and first > 34:
        s = 'x' + s[1:]
    return s


def charset(rng):
    """octets, name as decoded"""
    k = rng.random()
    if k < .7:
        n = rng.choice(sorted(wsp.CHARSET))
        return wsp.integer(n), wsp.CHARSET[n]
    if k < .85:
        n = rng.choice([1, 2, 13, 64, 107, 126, 127, 128, 255, 1000, 1001,
                        1012, 1013, 1014, 2025, 2026, 65535])
        return wsp.integer(n), wsp.CHARSET.get(n, str(n))
    return b'\x80', '*'


def enc(rng, t=None):
    if t is None:
        t = text(rng)
    if rng.random() < .5:
        return wsp.text(t), t
    b = charset(rng)[0] + wsp.text(t)
    return wsp.vlen(len(b)) + b, t


def q(n):
    return (n - 100) / 1000.0 if n > 100 else (n - 1) / 100.0


def param(rng, n=None):
    """octets, name, value as decoded"""
    if n is None:
        n = rng.choice(sorted(wsp.PAR) + [None] * 8)
    if n is None or n == 7:
        name = token(rng)
        v = rng.choice(['int', 'tok', 'quo', 'quo'])
        if v == 'int':
            x = delta(rng)
            return wsp.token(name) + wsp.integer(x), name, x
        if v == 'tok':
            x = token(rng).lstrip('"') or 'x'
            return wsp.token(name) + wsp.token(x), name, x
        x = text(rng)
        return wsp.token(name) + wsp.quoted(x), name, x
    kind, name = wsp.PAR[n][1:]
    h = wsp.short(n) if rng.random() < .9 else wsp.long(n)
    if kind == 'q':
        x = rng.choice([rng.randint(1, 100), rng.randint(101, 1099)])
        return h + wsp.uintvar(x), name, q(x)
    if kind == 'charset':
        b, x = charset(rng)
        return h + b, name, x
    if kind == 'version':
        x = rng.choice(['1.0', '1.2', '7.14', '3', '1.2.4', '9.1'])
        return h + wsp.version(x), name, x
    if kind in ('integer', 'delta'):
        x = delta(rng)
        return h + wsp.integer(x), name, x
    if kind == 'short':
        x = rng.randrange(128)
        return h + wsp.short(x), name, x
    if kind == 'text':
        x = text(rng)
        return h + wsp.text(x), name, x
    if kind == 'constrained':
        if rng.random() < .4:
            x = rng.randrange(128)
            return h + wsp.short(x), name, x
        x = rng.choice(['application/smil', 'text/x-foo', token(rng, 6)])
        return h + wsp.text(x), name, x
    if kind == 'none':
        return h + b'\0', name, 0
    if kind == 'date':
        x = secs(rng)
        return h + wsp.long(x), name, date(x)
    x = text(rng)
    if wsp.is_token(x) and x[0] != '"' and rng.random() < .5:
        return h + wsp.token(x), name, x
    return h + wsp.quoted(x), name, x


def media(rng):
    k = rng.random()
    if k < .7:
        n = rng.choice(sorted(wsp.CT))
        m = wsp.CT[n]
        if k < .05:
            return wsp.long(n), m, False     # only in the general form
        return wsp.short(n), m, True
    m = rng.choice(['application/smil', 'audio/amr', 'video/3gpp', 'x/y',
                    'audio/x-wav', 'text/x-' + token(rng, 5)])
    return wsp.text(m), m, True


def ctype(rng, n=None):
    """content type value: octets, [media, {params}]"""
    mb, m, con = media(rng)
    if n is None:
        n = rng.choice([0, 0, 0, 1, 1, 2, 3, 5])
    if n == 0 and con and rng.random() < .7:
        return mb, [m, {}]
    ps, b = {}, mb
    for _ in range(n):
        o, name, v = param(rng)
        if name not in ps:
            ps[name] = v
            b += o
    return wsp.vlen(len(b)) + b, [m, ps]


MIXED = ['application/vnd.wap.multipart.mixed',
         'application/vnd.wap.multipart.related']


def value(rng, name, octet=None):
    """value octets, decoded value of a MMS header"""
    kind = wsp.MMS[wsp.MMSN[name]][0]
    if kind == 'enc':
        return enc(rng)
    if kind in ('uri', 'text'):
        t = text(rng, first=1)
        return wsp.text(t), t
    if kind == 'ct':
        if rng.random() < .5:
            m = rng.choice(MIXED)
            return wsp.media(m), [m, {}]
        return ctype(rng)
    if kind == 'date':
        n = secs(rng)
        return wsp.long(n), date(n)
    if kind == 'bool':
        v = rng.random() < .5
        return bytes([128 if v else 129]), v
    if kind in ('dtime', 'expiry'):
        if rng.random() < .5:
            n = secs(rng)
            b = b'\x80' + wsp.long(n)
            v = date(n) if kind == 'expiry' else ['absolute', n]
        else:
            n = delta(rng)
            b = b'\x81' + wsp.integer(n)
            v = n if kind == 'expiry' else ['relative', n]
        ln = wsp.vlen(len(b)) if rng.random() < .9 else \
            b'\x1f' + wsp.uintvar(len(b))
        return ln + b, v
    if kind == 'from':
        if rng.random() < .2:
            return b'\x01\x81', '<not inserted>'
        b, t = enc(rng)
        b = b'\x80' + b
        return wsp.vlen(len(b)) + b, t
    if kind == 'class':
        if rng.random() < .7:
            c = rng.choice(sorted(wsp.CLASS))
            return bytes([c]), wsp.CLASS[c]
        t = token(rng)
        return wsp.token(t), t
    if kind in ('mtype', 'status', 'rstatus'):
        tab, dflt = {'mtype': (wsp.MTYPE, '<unknown>'),
                     'status': (wsp.STATUS, 'Unrecognised'),
                     'rstatus': (wsp.RSTATUS, 'Error-unspecified')}[kind]
        c = octet
        if c is None:
            c = rng.choice(sorted(tab)) if rng.random() < .8 else \
                rng.randint(0x80, 0xff)
        return bytes([c]), tab.get(c, dflt)
    if kind == 'version':
        v = rng.choice(['1.0', '1.1', '1.2', '1.3', '2.0', '1', '7.14'])
        return wsp.version(v), v
    if kind == 'long':
        n = rng.choice([1, 255, 256, 29696, 65535, 65536, 10 ** 6, 2 ** 31 - 1,
                        2 ** 31, 2 ** 32])
        return wsp.long(n), n
    if kind == 'prio':
        c = rng.choice(sorted(wsp.PRIO))
        return bytes([c]), wsp.PRIO[c]
    c = rng.choice(sorted(wsp.VIS))
    return bytes([c]), wsp.VIS[c]


NAMES = [n for n in wsp.MMSN if n != 'Content-Type']


def header(rng, name=None, octet=None):
    """octets, name, value"""
    if name is None:
        if rng.random() < .1:
            name = 'X-' + token(rng, 6)
            t = text(rng, first=1)
            return wsp.token(name) + wsp.text(t), name, t
        name = rng.choice(NAMES)
    b, v = value(rng, name, octet)
    return wsp.mms_field(name) + b, name, v


def head(rng, names=None):
    """header block without Content-Type: [octets], {name: value}"""
    if names is None:
        names = NAMES[:]
        rng.shuffle(names)
        names = names[:rng.choice([0, 1, 2, 4, 8, 16, 23])] + \
            [None] * rng.choice([0, 0, 0, 1, 2])
        rng.shuffle(names)
    bs, hs = [], {}
    for n in names:
        b, name, v = header(rng, n)
        if name not in hs:
            hs[name] = v
            bs.append(b)
    return bs, hs


def payload(rng, n=None):
    if n is None:
        n = rng.choice([0, 1, 2, 10, 30, 126, 127, 128, 129, 255, 256, 300,
                        1000])
    k = rng.random()
    if k < .2:
        return bytes([rng.choice([0, 0x0a, 0x0d, 0x1a, 0xff])]) * n
    if k < .4:
        return bytes(rng.choice(b'ab\r\n\0\xff\xc3\xa9') for _ in range(n))
    return bytes(rng.randrange(256) for _ in range(n))


PART_TEXT = [n for n, (v, name) in sorted(wsp.HDR.items())
             if name not in ('Accept', 'Pragma', 'Content-Type', 'Content-ID',
                             'Content-Location')]


def part(rng, n=None):
    """octets of the content type, of the headers, data; expected view"""
    cb, ct = ctype(rng)
    hs, hb = {}, b''
    if rng.random() < .6:
        t = '<%s>' % token(rng, 8)
        hs['Content-ID'] = t
        hb += b'\xc0' + (wsp.quoted(t) if rng.random() < .7 else wsp.text(t))
    if rng.random() < .6:
        t = text(rng, first=35)
        hs['Content-Location'] = t
        hb += b'\x8e' + wsp.text(t)
    for _ in range(rng.choice([0, 0, 0, 1, 3])):
        k = rng.choice(PART_TEXT)
        name = wsp.HDR[k][1]
        t = text(rng, first=35)
        if name not in hs:
            hs[name] = t
            hb += wsp.short(k) + wsp.text(t)
    if rng.random() < .2:
        name, t = 'X-' + token(rng, 5), text(rng, first=1)
        hs[name] = t
        hb += wsp.token(name) + wsp.text(t)
    data = payload(rng, n)
    return (cb, hb, data), {'headers': dict(hs, **{'Content-Type': ct}),
                            'data': data.decode('latin-1'), 'ct': ct[0],
                            'len': len(data), 'ctp': ct[1]}


DEFAULTS = ('Message-Type', 'Transaction-Id', 'MMS-Version', 'Content-Type')


def message(rng, names=None, parts=None):
    """octets, {'headers':, 'parts':}, offset where each header ends"""
    bs, hs = head(rng, names)
    if rng.random() < .85:
        v, ct = value(rng, 'Content-Type')
        bs.append(wsp.mms_field('Content-Type') + v)
        hs['Content-Type'] = ct
        if parts is None:
            parts = rng.choice([0, 1, 2, 3, 5])
        ps = [part(rng) for _ in range(parts)]
        body = wsp.multipart([p[0] for p in ps])
        if not ps and rng.random() < .5:
            body = b''
        view = [p[1] for p in ps]
    else:
        body, view = b'', []
    ends, n = [], 0
    for b in bs:
        n += len(b)
        ends.append(n)
    return b''.join(bs) + body, {'headers': hs, 'parts': view}, ends


def wrong_headers(got, want):
    """names whose decoded values are not as expected"""
    return sorted(n for n in set(got) | set(want)
                  if n in want and (n not in got or
                                    norm(got[n]) != norm(want[n])) or
                  n not in want and n not in DEFAULTS)


def diff(got, want):
    """problems of a decoded view (jyhelpers.mview)"""
    for n in wrong_headers(got['headers'], want['headers']):
        yield 'header', '%s: %r, not %r' % (
            n, norm(got['headers'].get(n)), want['headers'].get(n))
    g, w = norm(got['parts']), norm(want['parts'])
    if len(g) != len(w):
        yield 'parts', '%d parts, not %d' % (len(g), len(w))
        return
    for i, (a, b) in enumerate(zip(g, w)):
        for k in b:
            if a[k] != b[k]:
                yield 'part-' + k, '%d: %.300r, not %.300r' % (i, a[k], b[k])
