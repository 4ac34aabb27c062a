"""C22 a failed or finished WSP decode leaves the cursor where it belongs"""
from ..core import S, A, dec
from ..mmsgen import *
from ..gen import scale, octets
from ..ref import wsp
import json

RULE = ('every decoder on values of its own kind, on values of every other '
        'kind, on every first octet with random tails and on random octets '
        '(those that start no value of the kind must be reported); '
        'a successful decode is repeated with other octets behind the value '
        'and without its last octet; distinct = different (decoder, octets)')
WSP = '''uint_8 uint_var short_integer long_integer text_string quoted_string
token_text extension_media constrained_encoding short_length value_length
integer_value content_type_value well_known_media media_type constrained_media
content_general_form parameter typed_parameter untyped_parameter
well_known_parameter typed_value compact_value date_value delta_seconds_value
q_value version_value uri_value text_value no_value accept_value pragma_value
well_known_charset well_known_header application_header header'''.split()
MMS = '''header mms_header encoded_string_value boolean_value
delivery_time_value from_value message_class_value message_type_value
priority_value sender_visibility_value response_status_value status_value
expiry_value'''.split()
ALL = [('wsp', n) for n in WSP] + [('mms', n) for n in MMS]
# decoders that say "the value is of another kind" and consume nothing then:
# so documented, or used as the first of two alternatives
CLEAN = set('''short_integer long_integer quoted_string token_text
extension_media constrained_encoding short_length value_length integer_value
well_known_media media_type constrained_media well_known_parameter
compact_value delta_seconds_value version_value text_value no_value
accept_value pragma_value boolean_value priority_value typed_value
sender_visibility_value message_class_value response_status_value'''.split())
SEP = set(b' (),/:;<=>?@[\\]{}') | set(range(32))
ALLB = set(range(256))
# first octets of no value of the kind
OTHER = {
    'short_integer': set(range(128)), 'long_integer': set(range(31, 256)),
    'quoted_string': ALLB - {34}, 'token_text': SEP,
    'extension_media': set(range(32)) | set(range(128, 256)),
    'constrained_encoding': set(range(32)), 'short_length': set(range(31, 256)),
    'value_length': set(range(32, 256)), 'integer_value': set(range(31, 128)),
    'well_known_media': set(range(31, 128)), 'media_type': {31, 127},
    'constrained_media': set(range(32)), 'text_value': SEP - {0},
    'no_value': ALLB - {0}, 'delta_seconds_value': set(range(31, 128)),
    'well_known_charset': set(range(31, 128)),
    'boolean_value': ALLB - {128, 129},
    'priority_value': ALLB - {128, 129, 130},
    'sender_visibility_value': ALLB - {128, 129}, 'message_class_value': SEP}
NEED = {'other_kind': 1500, 'finished': 4000, 'other_tail': 16000, 'cut': 4000, 'failed': 2500,
        'decoders': len(ALL), 'failing': 20}


def values(rng):
    """octets of values of all kinds"""
    t = text(rng)
    yield wsp.uintvar(delta(rng))
    yield wsp.short(rng.randrange(128))
    yield wsp.long(delta(rng))
    yield wsp.vlen(rng.choice([0, 1, 5, 30, 31, 127, 128, 1000]))
    yield wsp.text(t)
    yield wsp.quoted(t)
    yield wsp.token(token(rng))
    yield wsp.version(rng.choice(['1.0', '1.2.4', '3']))
    yield b'\0'
    yield media(rng)[0]
    yield ctype(rng)[0]
    yield param(rng)[0]
    yield param(rng)[0]
    yield param(rng, 7)[0]
    yield charset(rng)[0]
    yield enc(rng)[0]
    b = ctype(rng)[0]
    yield b'\x80' + b
    for n in rng.sample(NAMES, 5):
        yield value(rng, n)[0]
    yield header(rng)[0]
    yield header(rng)[0]
    yield wsp.short(rng.choice(PART_TEXT)) + wsp.text(t)
    yield wsp.token('X-' + token(rng, 3)) + wsp.text(t)
    b = media(rng)[0]
    yield wsp.vlen(len(b)) + b
    yield b'\x9f\x80' if rng.random() < .5 else b'\x9f' + wsp.vlen(4) + \
        b'a\0b\0'
    yield bytes([rng.choice([0x80, 0x8f, 0xcb, 0xcc, 0xff, 0xc8, 0x99])])
    m = wsp.long(rng.choice([0, 0x4b, 0x4c, 1000, 70000]))
    yield wsp.vlen(len(m)) + m


def gen(rng, ctx):
    rounds = scale(ctx, 10, 120)
    for _ in range(rounds):
        vs = list(values(rng))
        for w, name in ALL:
            for b in vs:
                yield mk(rng, w, name, b + octets(rng, rng.randint(0, 4)))
    for w, name in ALL:
        for c in range(256):
            if ctx.thorough or c in (0, 1, 30, 31, 32, 34, 47, 65, 127, 128,
                                     129, 144, 255) or rng.random() < .12:
                yield mk(rng, w, name, bytes([c]) + octets(
                    rng, rng.choice([0, 1, 3, 10, 40])))
        for c in OTHER.get(name, ()):
            for _ in range(scale(ctx, 1, 8)):
                yield mk(rng, w, name, bytes([c]) + rng.choice([
                    b'\0', b'a\0', octets(rng, 20), octets(rng, 150),
                    wsp.text(text(rng))]))
        for _ in range(scale(ctx, 6, 200)):
            yield mk(rng, w, name, octets(rng, rng.randint(0, 20)) +
                     rng.choice([b'', b'\0', b'\0\0\0']))


def mk(rng, w, name, b):
    tails = [b'', bytes([rng.randrange(256)]), b'\0' + octets(rng, 3),
             octets(rng, 2) + b'\0']
    return {'s': [['h', None, 'cur1', [S(w), S(name), A(b),
                                       [A(t) for t in tails]]]],
            'x': [w, name, b.hex(), [t.hex() for t in tails]]}


def nontrivial(c, rs):
    return json.dumps(c['x'][:3])


def nxt(b):
    return b[0] if b else None


def judge(c, rs, ctx):
    w, name, b, tails = c['x']
    r = rs[0]
    what = '%s.decode_%s of %s' % (w, name, b)
    if not r.ok:
        yield 'breakdown', '%s: %r' % (what, r)
        return
    b = bytes.fromhex(b)
    o = r.val[0]
    left = bytes(o['left'])
    if o['r'][0] == 'e':
        if 'Exception' not in o['r'][2]:
            yield 'breakdown', '%s: %r' % (what, o['r'])
        elif o['r'][1] == 'DecodeError' and (
                name in CLEAN or name == 'mms_header' and
                not (b and 0x80 < b[0] <= 0x98)):
            # (an MMS header is of another kind if its name is unknown)
            ctx.hit('failed')
            ctx.hit('other_kind', bool(b) and b[0] in OTHER.get(name, ()))
            ctx.see('failing', name)
            if left != b:
                yield 'consumed', '%s failed (%s) and left %s' % (
                    what, o['r'][3], left.hex())
            elif o['pv'] != nxt(b):
                yield 'preview', '%s failed, next preview is %r' % (what,
                                                                    o['pv'])
        return
    if b and b[0] in OTHER.get(name, ()):
        yield 'other-kind', '%s gave %r' % (what, o['r'])
        return
    ctx.hit('finished')
    ctx.see('decoders', w + name)
    if not b.endswith(left):
        yield 'left', '%s: left %s' % (what, left.hex())
        return
    k = len(b) - len(left)
    if o['pv'] != nxt(left):
        yield 'preview', '%s: next preview is %r' % (what, o['pv'])
    rest = r.val[1:]
    for t, p in zip(tails, rest):
        ctx.hit('other_tail')
        if p['r'] != o['r'] or p['left'].hex() != t:
            yield 'tail', '%s is %s, followed by %s %s, left %s' % (
                what, o['r'], t, p['r'], p['left'].hex())
            return
    if k:
        ctx.hit('cut')
        if rest[-1]['r'][0] == 'v':
            yield 'cut', '%s consumed %d octets, but %s gave %s' % (
                what, k, b[:k - 1].hex(), rest[-1]['r'])
