"""C33 assigned numbers are those of the standards"""
from ..core import S, A, D, V, dec
from ..mmsgen import *
from ..gen import octets
from ..ref import wsp
import json

RULE = ('exhaustive: every well-known header name, content type, character '
        'set, parameter and MMS field and value of the tables of WAP-230 and '
        'WAP-209 in every encoding version, encoded and decoded by number; '
        'all other numbers of the short form; each in every position where '
        'the library reads or writes one; distinct = different (table, '
        'number or name, position)')
NEED = {'headers': 400, 'types': 1700, 'charsets': 270, 'params': 350,
        'fields': 80, 'values': 90, 'unassigned': 2200, 'versions': 28}
VER = ('1.1', '1.2', '1.3', '1.4')
CTD = 'application/vnd.wap.multipart.mixed'
# octets of a value, and the value decoded, per kind of parameter
VAL = {'q': (wsp.uintvar(51), .5), 'charset': (wsp.integer(106), 'utf-8'),
       'version': (wsp.short(0x12), '1.2'), 'integer': (wsp.integer(300), 300),
       'text': (wsp.text('a b'), 'a b'), 'short': (wsp.short(9), 9),
       'constrained': (wsp.text('x/y'), 'x/y'),
       'delta': (wsp.integer(500), 500), 'none': (b'\0', 0),
       'value': (wsp.quoted('a b'), 'a b'),
       'date': (wsp.long(10 ** 9), date(10 ** 9))}
# a value of that kind to encode, where the library has an encoder
ENC = {'version': '1.2', 'integer': 300, 'text': 'a b', 'short': 9,
       'constrained': 'x/y', 'none': 0, 'value': 'a b'}
PVAL = {'enc': 'x', 'uri': 'http://x', 'text': 'T1', 'from': 'x',
        'version': '1.0', 'long': 77}


def dec1(where, form, b, *extra):
    return ['h', None, 'dec1', [S(where), S(form), A(b)] +
            [S(e) for e in extra]]


def enc1(where, form, *args):
    return ['h', None, 'enc1', [S(where), S(form)] + list(args)]


def call(name, *args):
    return ['c', None, 'messaging.mms.wsp_pdu:' + name, list(args)]


def py(v):
    return v if isinstance(v, int) else S(v)


def mms(hdr, ct=None, part=None):
    """octets of a message around header octets, a content type"""
    b = b'\x8c\x84' + hdr + b'\x84' + (ct or wsp.media(CTD))
    return b + (wsp.multipart([part]) if part else b'')


def gen(rng, ctx):
    # --- the tables, per encoding version
    for ver in VER:
        yield {'s': [call('get_header_field_names', S(ver))],
               'x': ['names', ver]}
        yield {'s': [call('get_well_known_parameters', S(ver))],
               'x': ['pnames', ver]}
    for f, k in (('get_header_field_names', 'names'),
                 ('get_well_known_parameters', 'pnames')):
        yield {'s': [call(f)], 'x': [k, '1.2']}
        for bad in ('1.0', '1.5', '2.2', '1', '', '1.10', '12', 'x', '1.2 '):
            yield {'s': [call(f, S(bad))], 'x': ['bad-version', f, bad]}
    # --- WSP header names
    for n in range(128):
        for v in ('text', 'x y'):
            t = octets(rng, 2)
            b = wsp.short(n) + wsp.text(v) + t
            known = n in wsp.HDR
            name = wsp.HDR[n][1] if known else None
            if name in ('Accept', 'Pragma'):
                b = wsp.short(n) + (wsp.text('x/y') if name == 'Accept' else
                                    b'\x80') + t
            for form in ('header', 'well_known_header'):
                yield {'s': [dec1('wsp', form, b)],
                       'x': ['hdr', n, v, b.hex(), t.hex(), form]}
    for n, (ver, name) in sorted(wsp.HDR.items()):
        if name not in ('Accept', 'Pragma'):
            yield {'s': [enc1('wsp', 'header', S(name), S('v'))],
                   'x': ['ehdr', name]}
            if name != 'Content-Type':
                # as a header of a part, in a message and back
                yield {'s': [['c', 'm', 'messaging.mms.message:MMSMessage',
                              []],
                             ['c', 'p', 'messaging.mms.message:DataPart', []],
                             ['c', None, '$p.set_data', [S('d'),
                                                         S('image/gif')]],
                             ['si', '$p.headers', S(name), S('v')],
                             ['c', None, '$m.add_data_part', [V('$p')]],
                             ['c', None, '$m.encode', []]],
                       'x': ['phdr', name]}
    yield {'s': [enc1('wsp', 'header', S('Accept'), S('image/gif'))],
           'x': ['ehdr', 'Accept']}
    # --- content types
    for n in range(128):
        known = n in wsp.CT
        e = wsp.CT.get(n)
        t = octets(rng, 2)
        for form, b in (('well_known_media', wsp.short(n)),
                        ('well_known_media', wsp.long(n)),
                        ('media_type', wsp.short(n)),
                        ('media_type', wsp.long(n)),
                        ('constrained_media', wsp.short(n)),
                        ('content_type_value', wsp.short(n)),
                        ('content_type_value', wsp.vlen(1) + wsp.short(n)),
                        ('content_type_value', wsp.vlen(2) + wsp.long(n)),
                        ('content_general_form', wsp.vlen(1) + wsp.short(n)),
                        ('accept_value', wsp.short(n)),
                        ('accept_value', wsp.vlen(1) + wsp.short(n))):
            yield {'s': [dec1('wsp', form, b + t)],
                   'x': ['ct', n, form, (b + t).hex(), t.hex()]}
        for ct in (wsp.short(n), wsp.vlen(1) + wsp.short(n),
                   wsp.vlen(2) + wsp.long(n),
                   wsp.vlen(6) + wsp.short(n) + b'\x85ab\0\x80'[:4] + b'\0'):
            if len(ct) > 4:
                ct = wsp.vlen(5) + wsp.short(n) + b'\x85ab\0'
            yield {'s': [['h', None, 'from_data', [A(mms(b'', ct))]]],
                   'x': ['mct', n, 'message']}
            yield {'s': [['h', None, 'from_data',
                          [A(mms(b'', None, (ct, b'', b'xyz')))]]],
                   'x': ['mct', n, 'part']}
    for n in (128, 255, 256, 0x4c, 0x201, 0x300, 65535):
        b = wsp.long(n)
        for form in ('well_known_media', 'media_type'):
            yield {'s': [dec1('wsp', form, b)],
                   'x': ['ct', n, form, b.hex(), '']}
    for n, e in sorted(wsp.CT.items()):
        for form in ('media_type', 'constrained_media', 'accept_value'):
            yield {'s': [enc1('wsp', form, S(e))], 'x': ['ect', n, form]}
        yield {'s': [enc1('wsp', 'content_type_value', S(e),
                          D({}))], 'x': ['ect', n, 'content_type_value']}
        yield {'s': [['c', 'm', 'messaging.mms.message:MMSMessage', []],
                     ['c', 'p', 'messaging.mms.message:DataPart', []],
                     ['c', None, '$p.set_data', [S('d'), S(e)]],
                     ['c', None, '$m.add_data_part', [V('$p')]],
                     ['c', None, '$m.encode', []]], 'x': ['ept', n]}
    # --- character sets
    for c in sorted(set(range(0, 130)) | set(wsp.CHARSET) |
                    {k + d for k in wsp.CHARSET for d in (-1, 1)} |
                    {1001, 1012, 1013, 1014, 1015, 2025, 2027, 2250, 2260}):
        if c == 0:
            continue
        e = wsp.CHARSET.get(c, str(c))
        yield {'s': [dec1('wsp', 'well_known_charset', wsp.integer(c))],
               'x': ['cs', c, wsp.integer(c).hex()]}
        b = b'\x81' + wsp.integer(c)
        yield {'s': [dec1('wsp', 'parameter', b)], 'x': ['csp', c, b.hex()]}
    # --- parameters
    for n in range(128):
        for ver in VER:
            t = octets(rng, 1)
            for b in (wsp.short(n), wsp.long(n)):
                yield {'s': [dec1('wsp', 'well_known_parameter', b + t, ver)],
                       'x': ['wkp', n, ver, (b + t).hex(), t.hex()]}
        if n in wsp.PAR and n != 7:
            v = VAL[wsp.PAR[n][1]]
            for form in ('parameter', 'typed_parameter'):
                for h in (wsp.short(n), wsp.long(n)):
                    yield {'s': [dec1('wsp', form, h + v[0] + b'\xaa')],
                           'x': ['par', n, form, (h + v[0]).hex()]}
            ct = wsp.ct_value('text/plain', wsp.short(n) + v[0])
            yield {'s': [['h', None, 'from_data', [A(mms(b'', ct))]]],
                   'x': ['mpar', n, ct.hex()]}
        elif n != 7:
            b = wsp.short(n) + b'\x81'
            yield {'s': [dec1('wsp', 'parameter', b)],
                   'x': ['nopar', n, b.hex()]}
    for n, (ver0, kind, name) in sorted(wsp.PAR.items()):
        for ver in VER:
            hi = [k for k in wsp.PAR if wsp.PAR[k][2] == name and
                  wsp.PAR[k][0] <= int(ver[-1])]
            kinds = {wsp.PAR[k][1] for k in hi}
            v = ENC.get(kind)
            if not hi:
                v = 'word'      # not assigned in this version
            elif kinds == {'integer'}:
                v = 300
            elif 'constrained' in kinds:
                v = 'x/y'
            elif v is None or any(k not in ENC for k in kinds):
                continue
            yield {'s': [enc1('wsp', 'parameter', S(name), py(v), S(ver))],
                   'x': ['epar', name, ver, v]}
    # --- MMS fields
    for n in range(128):
        if n in wsp.MMS:
            name = wsp.MMS[n][1]
            b, v = value(rng, name)
            t = octets(rng, 2)
            for form in ('header', 'mms_header'):
                yield {'s': [dec1('mms', form, wsp.short(n) + b + t)],
                       'x': ['fld', n, form, v, t.hex()]}
            yield {'s': [enc1('mms', 'mms_field_name', S(name))],
                   'x': ['efld', n]}
            v = PVAL.get(wsp.MMS[n][0])
            if v and name != 'Content-Location':
                yield {'s': [enc1('mms', 'header', S(name), py(v))],
                       'x': ['ehfld', n]}
        else:
            yield {'s': [dec1('mms', 'mms_header', wsp.short(n) + b'x\0')],
                   'x': ['nofld', n]}
    for name in ('X-Foo', 'Accept', 'to', 'Message-Id', ''):
        yield {'s': [enc1('mms', 'mms_field_name', S(name))],
               'x': ['noefld', name]}
    # --- values of the MMS fields
    for name, tab in (('Message-Type', wsp.MTYPE), ('Status', wsp.STATUS),
                      ('Response-Status', wsp.RSTATUS),
                      ('Priority', wsp.PRIO), ('Message-Class', wsp.CLASS),
                      ('Sender-Visibility', wsp.VIS),
                      ('Delivery-Report', {128: True, 129: False}),
                      ('Read-Reply', {128: True, 129: False}),
                      ('Report-Allowed', {128: True, 129: False})):
        for k, v in sorted(tab.items()):
            b = wsp.mms_field(name) + bytes([k])
            yield {'s': [dec1('mms', 'mms_header', b)],
                   'x': ['val', name, k, v]}
            yield {'s': [['h', None, 'from_data', [A(mms(
                b if name != 'Message-Type' else b))]]],
                'x': ['mval', name, k, v]}
            if name == 'Message-Type':
                yield {'s': [enc1('mms', 'message_type_value', S(v))],
                       'x': ['eval', k, v]}
                yield {'s': [enc1('mms', 'header', S(name), S(v))],
                       'x': ['ehval', name, k, v]}
            if name == 'Status':
                yield {'s': [enc1('mms', 'status_value', S(v))],
                       'x': ['eval', k, v]}
                yield {'s': [enc1('mms', 'header', S(name), S(v))],
                       'x': ['ehval', name, k, v]}
    # present and insert address tokens
    for b, v in ((b'\x01\x81', '<not inserted>'), (b'\x04\x80ab\0', 'ab')):
        yield {'s': [dec1('mms', 'from_value', b)], 'x': ['from', b.hex(), v]}
    yield {'s': [enc1('mms', 'from_value', S(''))], 'x': ['efrom', '0181']}
    yield {'s': [enc1('mms', 'from_value', S('ab'))],
           'x': ['efrom', '0480616200']}


def nontrivial(c, rs):
    return json.dumps(c['x'])


def view(r):
    """('v', value) or ('x',) of a dec1 step, octets left"""
    if not r.ok:
        return ('?', repr(r)), None
    o = r.val
    if o['r'][0] == 'v':
        return ('v', norm(dec(o['r'][1]))), o['left'].hex()
    return ('x', o['r'][1] if len(o['r']) > 1 else ''), o['left'].hex()


def judge(c, rs, ctx):
    x = c['x']
    k = x[0]
    r = rs[0]
    if k == 'names':
        ctx.hit('versions')
        want = [wsp.HDR[n][1] for n in sorted(wsp.HDR)
                if wsp.HDR[n][0] <= int(x[1][-1])]
        if not r.ok or norm(r.val) != want:
            yield 'names', '%s: %r' % (x[1], r)
    elif k == 'pnames':
        ctx.hit('versions')
        want = {n: wsp.PAR[n][2] for n in wsp.PAR
                if wsp.PAR[n][0] <= int(x[1][-1])}
        got = {int(n): v[0] for n, v in r.val.items()} if r.ok else None
        if got != want:
            yield 'params', '%s: %r' % (x[1], r)
    elif k == 'bad-version':
        ctx.hit('versions')
        if r.ok or r.exc != 'ValueError':
            yield 'version', '%s(%r): %r' % (x[1], x[2], r)
    elif k == 'hdr':
        n, v, b, t, form = x[1:]
        got, left = view(r)
        if n not in wsp.HDR:
            ctx.hit('unassigned')
            if form == 'well_known_header' and (got[0] != 'x' or left != b):
                yield 'unassigned', 'header %#x: %r, left %s' % (n, got, left)
            elif got[0] == 'v' and got[1][0] in [h[1] for h in
                                                 wsp.HDR.values()]:
                yield 'unassigned', 'header %#x: %r' % (n, got)
            return
        ctx.hit('headers')
        name = wsp.HDR[n][1]
        if got[0] != 'v' or got[1][0] != name or left != t:
            yield 'header', '%s of %#x: %r, left %s' % (name, n, got, left)
        elif name not in ('Accept', 'Pragma') and got[1][1] != v:
            yield 'header', '%s: %r' % (name, got)
    elif k == 'ehdr':
        ctx.hit('headers')
        name = x[1]
        nums = [n for n in wsp.HDR if wsp.HDR[n][1] == name]
        low = [n for n in nums if wsp.HDR[n][0] <= 2]
        if not r.ok:
            yield 'encode', '%s: %r' % (name, r)
        elif r.val[0] & 0x80:
            if r.val[0] & 0x7f not in nums:
                yield 'encode', '%s: %s' % (name, r.val.hex())
        elif low or not r.val.startswith(name.encode() + b'\0'):
            yield 'encode', '%s: %s' % (name, r.val.hex())
    elif k == 'phdr':
        ctx.hit('headers')
        name = x[1]
        if not rs[-1].ok:
            yield 'part-header', '%s: %r' % (name, rs[-1])
            return
        b = rs[-1].val
        h, ps = wsp.read_mms(b)
        if [a for a in ps[1][2]] != [(name, 'v')]:
            yield 'part-header', '%s: %r' % (name, ps[1][2])
    elif k == 'ct':
        n, form, b, t = x[1:]
        got, left = view(r)
        if n not in wsp.CT:
            ctx.hit('unassigned')
            if got[0] == 'v':
                yield 'unassigned', '%s %s: %r' % (form, b, got)
            return
        ctx.hit('types')
        want = wsp.CT[n]
        if 'content' in form:
            want = [want, {}]
        if got != ('v', want) or left != t:
            yield 'type', '%s %s: %r, left %s' % (form, b, got, left)
    elif k == 'mct':
        n, where = x[1:]
        if n not in wsp.CT:
            ctx.hit('unassigned')
            # an unassigned type is refused, or at least not a known one
            if r.ok:
                ct = r.val['headers'].get('Content-Type') \
                    if where == 'message' else \
                    [p['ct'] for p in r.val['parts']][:1]
                if ct and ct[0] in wsp.CTN and (where == 'part' or
                                                ct[0] != DEFCT):
                    yield 'unassigned', '%s %#x: %r' % (where, n, r)
            return
        ctx.hit('types')
        if not r.ok:
            yield 'type', '%s %#x: %r' % (where, n, r)
        elif where == 'message':
            if r.val['headers']['Content-Type'][0] != wsp.CT[n]:
                yield 'type', '%#x: %r' % (n, r.val['headers'])
        elif not r.val['parts'] or r.val['parts'][0]['ct'] != wsp.CT[n]:
            yield 'type', 'part %#x: %r' % (n, r.val['parts'])
    elif k == 'ect':
        ctx.hit('types')
        n, form = x[1:]
        if not r.ok or r.val != wsp.short(n):
            yield 'encode', '%s %s: %r' % (form, wsp.CT[n], r)
    elif k == 'ept':
        ctx.hit('types')
        if not rs[-1].ok:
            yield 'encode', '%s: %r' % (wsp.CT[x[1]], rs[-1])
            return
        # the last part: lengths, its type and one octet
        if not rs[-1].val.endswith(b'\x01\x01' + wsp.short(x[1]) + b'd'):
            yield 'encode', 'part of %s: %s' % (wsp.CT[x[1]],
                                               rs[-1].val[-8:].hex())
    elif k in ('cs', 'csp'):
        ctx.hit('charsets')
        want = wsp.CHARSET.get(x[1], str(x[1]))
        got, left = view(r)
        if k == 'csp':
            want = ['Charset', want]
        if got != ('v', want) or left:
            yield 'charset', '%s: %r, not %r' % (x[2], got, want)
    elif k == 'wkp':
        n, ver, b, t = x[1:]
        got, left = view(r)
        if n in wsp.PAR and wsp.PAR[n][0] <= int(ver[-1]):
            ctx.hit('params')
            if got[0] != 'v' or got[1][0] != wsp.PAR[n][2] or left != t:
                yield 'param', '%s of %s: %r, left %s' % (b, ver, got, left)
        else:
            ctx.hit('unassigned')
            if got[0] != 'x' or left != b:
                yield 'unassigned', 'param %s of %s: %r, left %s' % (
                    b, ver, got, left)
    elif k == 'par':
        n, form, b = x[1:]
        ctx.hit('params')
        got, left = view(r)
        want = [wsp.PAR[n][2], norm(VAL[wsp.PAR[n][1]][1])]
        if got != ('v', want) or left != 'aa':
            yield 'param', '%s %s: %r, left %s' % (form, b, got, left)
    elif k == 'mpar':
        ctx.hit('params')
        n = x[1]
        want = {wsp.PAR[n][2]: norm(VAL[wsp.PAR[n][1]][1])}
        if not r.ok or norm(r.val['headers']['Content-Type']) != [
                'text/plain', want]:
            yield 'param', '%s: %r' % (x[2], r)
    elif k == 'nopar':
        ctx.hit('unassigned')
        got, left = view(r)
        if got[0] == 'v' and got[1][0] in [p[2] for p in wsp.PAR.values()]:
            yield 'unassigned', 'param %s: %r' % (x[2], got)
    elif k == 'epar':
        ctx.hit('params')
        name, ver, v = x[1:]
        nums = [n for n in wsp.PAR if wsp.PAR[n][2] == name and
                wsp.PAR[n][0] <= int(ver[-1])]
        if not r.ok:
            yield 'encode', '%s in %s: %r' % (name, ver, r)
            return
        n = r.val[0] & 0x7f if r.val[0] & 0x80 else None
        if (n is not None or nums) and n not in nums:
            yield 'encode', '%s in %s: %s' % (name, ver, r.val.hex())
            return
        cur = wsp.Cur(r.val)
        try:
            got = list(cur.param())
        except wsp.Bad as e:
            got = str(e)
        if got != [name, v] or cur.left:
            yield 'encode', '%s in %s: %s is %r' % (name, ver, r.val.hex(),
                                                   got)
    elif k == 'fld':
        ctx.hit('fields')
        n, form, v, t = x[1:]
        got, left = view(r)
        if got != ('v', [wsp.MMS[n][1], norm(v)]) or left != t:
            yield 'field', '%#x: %r, left %s' % (n, got, left)
    elif k == 'efld':
        ctx.hit('fields')
        if not r.ok or r.val != wsp.short(x[1]):
            yield 'field', '%s: %r' % (wsp.MMS[x[1]][1], r)
    elif k == 'ehfld':
        ctx.hit('fields')
        n = x[1]
        try:
            got = wsp.Cur(r.val).mms_header() if r.ok else repr(r)
        except wsp.Bad as e:
            got = str(e)
        if not r.ok or r.val[:1] != wsp.short(n) or got != (
                wsp.MMS[n][1], PVAL[wsp.MMS[n][0]]):
            yield 'field', '%s: %r' % (wsp.MMS[n][1], got)
    elif k == 'nofld':
        ctx.hit('unassigned')
        got, left = view(r)
        if got[0] != 'x' or left != (wsp.short(x[1]) + b'x\0').hex():
            yield 'unassigned', 'field %#x: %r, left %s' % (x[1], got, left)
    elif k == 'noefld':
        ctx.hit('unassigned')
        if r.ok:
            yield 'unassigned', 'field %r: %r' % (x[1], r)
    elif k == 'val':
        ctx.hit('values')
        got, left = view(r)
        if got != ('v', [x[1], x[3]]) or left:
            yield 'value', '%s %#x: %r' % (x[1], x[2], got)
    elif k == 'mval':
        ctx.hit('values')
        if not r.ok or r.val['headers'].get(x[1]) != x[3]:
            yield 'value', '%s %#x: %r' % (x[1], x[2], r)
    elif k == 'eval':
        ctx.hit('values')
        if not r.ok or r.val != bytes([x[1]]):
            yield 'value', '%s: %r' % (x[2], r)
    elif k == 'ehval':
        ctx.hit('values')
        if not r.ok or r.val != wsp.mms_field(x[1]) + bytes([x[2]]):
            yield 'value', '%s %s: %r' % (x[1], x[3], r)
    elif k == 'from':
        got, left = view(r)
        if got != ('v', x[2]) or left:
            yield 'value', 'From %s: %r' % (x[1], got)
    elif k == 'efrom':
        if not r.ok or r.val.hex() != x[1]:
            yield 'value', 'From: %r, not %s' % (r, x[1])


DEFCT = 'application/vnd.wap.multipart.related'
