"""C20 WSP texts, tokens, versions, media types and parameters round trip"""
from ..core import S, U, A, dec
from ..mmsgen import *
from ..gen import scale, octets
from ..ref import wsp
import json

RULE = ('every form of text, version, media type, charset, quality and '
        'parameter value: encoded by the library and read by the reference '
        'model, written by the model (every assigned number and long and '
        'short forms) and decoded by the library in front of random octets, '
        'and values that no form can carry; distinct = different (form, '
        'value)')
NEED = {'encoded': 1300, 'decoded': 4000, 'refused': 40, 'params': 250,
        'forms': 12}
# parameters whose kind of value the library can encode
ENC = ('Level', 'Type', 'Name', 'Filename', 'Padding', 'Start', 'Start-info',
       'Comment', 'Domain', 'Path', 'Secure', 'SEC', 'MAC', 'Size')


def L(n):
    return n if abs(n) < 2 ** 31 else {'long': str(n)}


def versions(rng):
    out = ['%d.%d' % (a, b) for a in range(0, 10) for b in range(0, 18)]
    out += ['%d' % a for a in range(0, 12)]
    out += ['1.2.4', '1.0.0', '1.05', '01.0', '1.', '.1', '', 'x', '1.x',
            '-1.0', '+1.0', '1.-1', ' 1.0', '1.0 ', '1_0', '1.1a', '12.3',
            '1.14', '1.15', '1.16', '7.15', '8.0', '0.1', '1.00']
    return out


def params(rng, n):
    """(name, value) that can be encoded"""
    for _ in range(n):
        if rng.random() < .35:
            name = rng.choice([token(rng), 'x-' + token(rng, 4), 'boundary',
                               'type2'])
            if name in ('Q', 'q'):
                continue
            if rng.random() < .4:
                yield name, delta(rng)
            else:
                yield name, rng.choice([text(rng), text(rng, first=1),
                                        token(rng)])
            continue
        name = rng.choice(ENC)
        if name == 'Level':
            v = rng.choice(versions(rng)) or '1.0'
        elif name == 'Type':
            v = rng.choice(['application/smil', 'text/plain', 'x'])
        elif name in ('Padding', 'SEC'):
            v = rng.randrange(128)
        elif name == 'Size':
            v = delta(rng)
        elif name == 'Secure':
            v = 0
        else:
            v = text(rng, first=1)
        yield name, v


def py(v):
    return L(v) if isinstance(v, int) else S(v)


def both(form, t, b, rng, enc=True, extra=()):
    tail = octets(rng, rng.randint(0, 3))
    st = [['h', None, 'dec1', [S('wsp'), S(form), A(b + tail)]]]
    if enc:
        st.append(['h', None, 'enc1', [S('wsp'), S(form), S(t)]])
    return {'s': st, 'x': ['both', form, t, b.hex(), tail.hex()]}


def gen(rng, ctx):
    n = scale(ctx, 250, 5000)
    for c in range(1, 256):
        for t in (chr(c), 'a' + chr(c), chr(c) + 'a'):
            yield both('text_string', t, wsp.text(t), rng)
            if t[0] != '\x7f':
                yield both('text_value', t, wsp.quoted(t), rng)
    for _ in range(n):
        t = text(rng, first=1)
        yield both('text_string', t, wsp.text(t), rng)
        yield both('uri_value', t, wsp.text(t), rng, False)
        t = text(rng, first=1)
        yield both('quoted_string', t, wsp.quoted(t), rng, False)
        t = rng.choice([text(rng, first=1), token(rng)])
        yield both('text_value', t, wsp.quoted(t), rng)
        t = token(rng)
        yield both('token_text', t, wsp.token(t), rng)
        if t[0] != '"':
            yield both('text_value', t, wsp.token(t), rng)
        # a Quote in front of any text
        t = text(rng, first=1)
        yield both('text_string', t, b'\x7f' + wsp.lat(t) + b'\0', rng, False)
    yield both('text_value', '', b'\0', rng)
    for v in versions(rng):
        yield both('version_value', v, wsp.version(v), rng)
    for c in range(128):
        v = '%d.%d' % (c >> 4, c & 15) if c & 15 != 15 else '%d' % (c >> 4)
        yield both('version_value', v, wsp.short(c), rng, False)
    for k, m in wsp.CT.items():
        for form in ('media_type', 'constrained_media'):
            yield both(form, m, wsp.short(k), rng)
        for form in ('media_type', 'well_known_media'):
            yield both(form, m, wsp.long(k), rng, False)
            yield both(form, m, b'\x02' + bytes([0, k]), rng, False)
        yield both('well_known_media', m, wsp.short(k), rng, False)
        yield both('accept_value', m, wsp.short(k), rng)
        yield both('accept_value', m, wsp.vlen(1) + wsp.short(k), rng, False)
        yield both('accept_value', m, wsp.vlen(6) + wsp.short(k) +
                   b'\x80\x0bx\0\x85', rng, False)
    # general forms of every length
    for k in [1, 28, 29, 30, 31, 60, 127, 128, 129, 400] + [
            rng.randint(1, 300) for _ in range(scale(ctx, 20, 200))]:
        c = rng.choice(sorted(wsp.CT))
        b = wsp.short(c) + b'\x80\x0b' + wsp.token('x' * max(k - 4, 1))
        if rng.random() < .5:
            b = wsp.text('x/' + 'y' * k) + b'\x80\x20'
            yield both('accept_value', 'x/' + 'y' * k, wsp.vlen(len(b)) + b,
                       rng, False)
        else:
            yield both('accept_value', wsp.CT[c], wsp.vlen(len(b)) + b, rng,
                       False)
        v = 'v' * k
        b = wsp.token('n') + wsp.token(v)
        yield both('pragma_value', ['n', v], wsp.vlen(len(b)) + b, rng, False)
    for _ in range(n):
        m = rng.choice(['application/smil', 'audio/amr', 'x', '!', '~/~',
                        'text/x-' + token(rng), ' a', 'm' + text(rng, 12)])
        for form in ('media_type', 'constrained_media', 'extension_media',
                     'accept_value'):
            yield both(form, m, wsp.text(m), rng)
    for c in sorted(wsp.CHARSET):
        yield both('well_known_charset', wsp.CHARSET[c], wsp.integer(c), rng,
                   False)
        yield both('well_known_charset', wsp.CHARSET[c], wsp.long(c), rng,
                   False)
    for c in [1, 2, 13, 107, 127, 128, 999, 1001, 2025, 2027, 65535]:
        yield both('well_known_charset', str(c), wsp.integer(c), rng, False)
    yield both('well_known_charset', '*', b'\x80', rng, False)
    for v in range(1, 1100):
        yield both('q_value', q(v), wsp.uintvar(v), rng, False)
    for _ in range(n):
        v = secs(rng)
        yield both('date_value', date(v), wsp.long(v), rng, False)
    # parameters, written by the model
    for i in range(n * 3):
        k = sorted(wsp.PAR)[i // 2 % len(wsp.PAR)] if i % 2 else 7
        b, name, v = param(rng, k)
        yield both('parameter', [name, v], b, rng, False)
        if k != 7:
            yield both('typed_parameter', [name, v], b, rng, False)
            if wsp.PAR[k][1] in ('version', 'integer', 'short', 'delta',
                                 'date') and rng.random() < .5:
                # [5]: what the expected type cannot express is text
                t = rng.choice([token(rng), 'T' + text(rng)])
                w = wsp.quoted(t)
                if wsp.PAR[k][1] != 'version':
                    yield both('parameter', [name, t], wsp.short(k) + w, rng,
                               False)
        else:
            yield both('untyped_parameter', [name, v], b, rng, False)
    # parameters, encoded by the library
    for name, v in params(rng, n * 2):
        ver = rng.choice([None, '1.1', '1.2', '1.3', '1.4'])
        if name == 'Type' and ver == '1.1':
            v = delta(rng)      # only its integer form was assigned
        yield {'s': [['h', None, 'enc1', [S('wsp'), S('parameter'), S(name),
                                          py(v)] + ([S(ver)] if ver else [])]],
               'x': ['param', name, v, ver or '1.2']}
    # parameters whose kind of value has no encoder yet
    for name, v in (('Charset', 'utf-8'), ('Charset', 106), ('Q', 1),
                    ('Q', '0.5'), ('Max-Age', 300), ('Differences', 'Via'),
                    ('Creation-date', 1000000), ('Read-date', 'x'),
                    ('Modification-date', 2 ** 31)):
        for ver in ('1.1', '1.2', '1.3', '1.4'):
            yield {'s': [['h', None, 'enc1', [S('wsp'), S('parameter'),
                                              S(name), py(v), S(ver)]]],
                   'x': ['maybe', name, v, ver]}
    # what cannot be said
    for form, t in [('text_string', 'a\0b'), ('text_string', '\0'),
                    ('text_value', 'a\0b'), ('text_value', '\0')] + \
            [('token_text', 'a%cb' % c) for c in
             b'\0\x01\x0b\x1f\x20()/,;:<=>?@[\\]{}\x7f\x80\xff'] + \
            [('extension_media', '%ca' % c) for c in
             b'\0\x01\x1e\x1f\x7f\x80\xff'] + \
            [('media_type', '%ca' % c) for c in b'\0\x01\x1f\x7f\x80'] + \
            [('constrained_media', '%ca' % c) for c in b'\0\x01\x1f\x7f\x80'
             ]:
        yield {'s': [['h', None, 'enc1', [S('wsp'), S(form), S(t)]]],
               'x': ['bad', form, t]}
    for name in ('a b', 'a/b', '', 'é', 'a=b', '\x01', 'a\0'):
        if name:
            yield {'s': [['h', None, 'enc1', [S('wsp'), S('parameter'),
                                              S(name), S('v')]]],
                   'x': ['bad', 'parameter', name]}
    for name, v in (('Padding', 128), ('Padding', -1), ('SEC', 200),
                    ('Name', 'a\0b'), ('Type', '\x01'), ('Type', 128),
                    ('foo', 'a\0b'), ('foo', -1)):
        yield {'s': [['h', None, 'enc1', [S('wsp'), S('parameter'), S(name),
                                          py(v), S('1.4')]]],
               'x': ['bad', 'parameter', name]}


def nontrivial(c, rs):
    return json.dumps(c['x'])


def judge(c, rs, ctx):
    x = c['x']
    if x[0] == 'bad':
        if rs[0].ok or not rs[0].ordinary:
            yield 'accepted', '%s %r encoded as %r' % (x[1], x[2], rs[0])
        else:
            ctx.hit('refused')
        return
    if x[0] in ('param', 'maybe'):
        name, v, ver = x[1:]
        r = rs[0]
        if x[0] == 'maybe' and not r.ok:
            if not r.ordinary:
                yield 'encode', repr(r)
            return
        if not r.ok:
            yield 'encode', '%s=%r: %r' % (name, v, r)
            return
        ctx.hit('encoded')
        ctx.hit('params')
        cur = wsp.Cur(r.val)
        try:
            got = list(cur.param())
        except wsp.Bad as e:
            yield 'encode', '%s=%r: %s: %s' % (name, v, r.val.hex(), e)
            return
        if x[0] == 'maybe':
            if got[0] != name or cur.left:
                yield 'encode', '%s=%r: %r' % (name, v, got)
            return
        if got != [name, v] or cur.left:
            yield 'encode', '%s=%r: %s is %r, %d octets left' % (
                name, v, r.val.hex(), got, cur.left)
        minor = int(ver[-1])
        known = [k for k in wsp.PAR if wsp.PAR[k][2] == name and
                 wsp.PAR[k][0] <= minor]
        n = r.val[0] & 0x7f if r.val[0] & 0x80 else None
        if n is None and known or n is not None and n not in known:
            yield 'number', '%s in version %s: %s' % (name, ver, r.val.hex())
        return
    _, form, v, b, tail = x
    ctx.hit('decoded')
    ctx.see('forms', form)
    r = rs[0]
    o = r.val if r.ok else None
    if not o or o['r'][0] != 'v':
        yield 'decode', '%s %r of %s: %r' % (form, v, b, o or r)
    else:
        got = norm(dec(o['r'][1]))
        if got != norm(v):
            yield 'decode', '%s of %s: %r, not %r' % (form, b, got, v)
        if o['left'].hex() != tail:
            yield 'cursor', '%s %s: left %s of %s' % (form, b,
                                                      o['left'].hex(), tail)
    if len(rs) < 2:
        return
    ctx.hit('encoded')
    if not rs[1].ok:
        yield 'encode', '%s %r: %r' % (form, v, rs[1])
        return
    e = rs[1].val
    if form == 'text_value':
        cur = wsp.Cur(e)
        try:
            got = cur.text_value()
        except wsp.Bad as ex:
            got = str(ex)
        if got != v or cur.left:
            yield 'encode', '%s %r: %s is %r' % (form, v, e.hex(), got)
    elif e.hex() != b:
        yield 'encode', '%s %r: %s, not %s' % (form, v, e.hex(), b)
