"""C30 damaged MMS messages end in a result or an ordinary error"""
import hashlib
import os
from ..core import A
from ..mmsgen import *
from ..gen import scale

RULE = ('every truncation of generated messages and of the small captured '
        'ones (sampled in large bodies), changed, removed, inserted, repeated '
        'and swapped octets, huge lengths and counts, spliced messages, random '
        'octets; each decode on a budget of executed lines per octet and '
        'followed by the intact message in the same and in a new decoder; '
        'distinct = different (message, damage)')
NEED = {'truncations': 6000, 'damages': 2500, 'results': 1200, 'errors': 6000,
        'prefixes': 700, 'bodies': 250, 'followed': 6000, 'intact': 60,
        'captured': 13, 'kinds': 9}
BASE, PER = 20000, 400
SHARDS = 7
DATA = '/repo/messaging/test/mms-data'
CHUNK = 60


def damages(rng, b, n):
    for _ in range(n):
        a = bytearray(b)
        p = rng.randrange(len(a) + 1)
        if rng.random() < .5:
            p = min(p, rng.randrange(min(200, len(a)) + 1))
        k = rng.choice(['flip', 'set', 'set', 'del', 'ins', 'rep', 'swap',
                        'len', 'zero', 'tail'])
        if k == 'flip' and p < len(a):
            a[p] ^= 1 << rng.randrange(8)
        elif k == 'set':
            for q in range(p, min(len(a), p + rng.choice([1, 1, 2, 5]))):
                a[q] = rng.choice([0, 1, 30, 31, 32, 127, 128, 129, 255,
                                   rng.randrange(256)])
        elif k == 'del':
            del a[p:p + rng.choice([1, 1, 2, 10])]
        elif k == 'ins':
            a[p:p] = bytes(rng.randrange(256) for _ in range(
                rng.choice([1, 1, 3, 20])))
        elif k == 'rep':
            a[p:p] = a[p:p + rng.choice([1, 2, 9, 60])] * rng.choice([1, 2, 9])
        elif k == 'swap':
            q = p + rng.choice([1, 4, 30])
            a[p:q] = a[p:q][::-1]
        elif k == 'len':
            a[p:p + 1] = rng.choice([
                b'\x87\xff\xff\xff\x7f', b'\x8f\xff\xff\xff\x7f',
                b'\x1f\x87\xff\xff\xff\x7f', b'\xff\xff\xff\xff\xff\xff\x7f',
                b'\x1f\xff\x7f', b'\x1e' + b'\xff' * 30, b'\x83\xff\x7f'])
        elif k == 'zero':
            a[p:] = bytes(len(a) - p)
        elif k == 'tail':
            a += bytes(rng.randrange(256) for _ in range(
                rng.choice([1, 2, 50])))
            p = len(b)
        yield k, p, bytes(a)


def cases(rng, b, want, ends, pts, n, name):
    todo = [('cut', p, b[:p]) for p in pts] + list(damages(rng, b, n))
    rng.shuffle(todo)
    for i in range(0, len(todo), CHUNK):
        part = todo[i:i + CHUNK]
        yield {'s': [['h', None, 'damaged', [[A(d) for _, _, d in part], A(b),
                                             BASE, PER, rng.random() < .5]]],
               'x': {'d': [[k, p, len(d), hashlib.md5(d).hexdigest()]
                           for k, p, d in part],
                     'want': want, 'ends': ends, 'name': name,
                     'id': hashlib.md5(b).hexdigest(), 'n': len(b)}}


def gen(rng, ctx):
    for f in sorted(os.listdir(DATA)):
        b = open(os.path.join(DATA, f), 'rb').read()
        if len(b) < 3000:
            pts = list(range(len(b) + 1))
            if not ctx.thorough and len(b) > 800:
                pts = sorted(rng.sample(pts, 250))
        else:
            pts = list(range(0, 260, 1 if ctx.thorough else 3))
            n = 3 if len(b) < 50000 else 1
            if ctx.thorough or rng.random() < 3000. / len(b):
                pts += [rng.randrange(len(b)) for _ in range(n)]
            if len(b) > 50000 and not ctx.thorough:
                pts = pts[::4]
        n = 60 if len(b) < 3000 else 8 if ctx.thorough else \
            rng.random() < 10000. / len(b)
        yield from cases(rng, b, None, None, pts, n * (8 if ctx.thorough
                                                       else 1), f)
    for i in range(scale(ctx, 60, 700)):
        while True:
            b, want, ends = message(rng)
            if len(b) < (800 if i % 5 else 3000):
                break
        pts = range(len(b) + 1)
        if len(b) > 220 and not ctx.thorough:
            pts = sorted(set(rng.sample(pts, 120)) | set(ends))
        yield from cases(rng, b, want, ends, pts, 40, 'generated')
    b = message(rng, ['To', 'Date'], 1)[0]
    big = [bytes([rng.choice(range(128, 256)) for _ in range(n)])
           for n in (1, 5, 50, 3000)]
    big += [bytes([c]) * n for c in (0, 1, 0x1f, 0x7f, 0x80, 0x84, 0x96, 0xff)
            for n in (1, 2, 40, 2500)]
    big += [b'\x84\xa3' + b'\xff' * n + b'\x7f' for n in (1, 4, 9, 3000)]
    big += [b'\x84\xa3\x8f\xff\xff\xff\x7f' + b'\0\0' * 1500,
            b'\x84\xa3\x8f\xff\xff\xff\x7f' + b'\1\0\x83' * 1000,
            b'\x84\xa3\1\x8f\xff\xff\xff\x7f\x03\x83',
            b'\x84\xa3\1\x03\x8f\xff\xff\xff\x7f\x83\x80\x80',
            b'X' * 3000, b'X\0' * 1500, b'X\0Y\0' * 800, b'\x96\x7f' * 1000]
    big += [bytes(rng.randrange(256) for _ in range(rng.choice(
        [1, 3, 10, 40, 200]))) for _ in range(scale(ctx, 300, 6000))]
    for i in range(0, len(big), CHUNK):
        yield {'s': [['h', None, 'damaged', [[A(d) for d in big[i:i + CHUNK]],
                                             A(b), BASE, PER, False]]],
               'x': {'d': [['random', 0, len(d), hashlib.md5(d).hexdigest()]
                           for d in big[i:i + CHUNK]], 'want': None,
                     'ends': None, 'name': 'random', 'id': '', 'n': len(b)}}


def nontrivial(c, rs):
    return [c['x']['id'] + d[3] for d in c['x']['d'] if d[3] != c['x']['id']]


INIT = {'Message-Type': 'm-send-req', 'Transaction-Id': '1234',
        'MMS-Version': '1.0',
        'Content-Type': ['application/vnd.wap.multipart.mixed', {}]}


def judge(c, rs, ctx):
    x = c['x']
    if not rs[0].ok:
        yield 'refused', repr(rs[0])
        return
    ctx.evaluations = getattr(ctx, 'evaluations', 0) + len(x['d'])
    first, out = norm(rs[0].val[0]), rs[0].val[1:]
    if not isinstance(first, dict):
        yield 'intact', '%s: %r' % (x['name'], first)
        return
    ctx.hit('intact')
    ctx.see('captured', x['name'])
    if x['want']:
        want = dict(x['want'], parts=[
            p if p['len'] <= 300 else dict(p, data='%d %s' % (
                p['len'], hashlib.md5(p['data'].encode('latin-1'))
                .hexdigest())) for p in x['want']['parts']])
        for k, m in diff(first, want):
            yield 'intact-' + k, m
    for (kind, p, n, h), (r, steps, again) in zip(x['d'], out):
        what = '%s %s at %d of %d' % (x['name'], kind, p, x['n'])
        ctx.see('kinds', kind)
        ctx.hit('truncations' if kind == 'cut' else 'damages')
        ctx.hit('followed')
        ctx.extra = {'most_lines_per_octet': max(getattr(ctx, 'extra', {}).get(
            'most_lines_per_octet', 0), steps // (n + 20))}
        if steps > BASE + PER * n:
            yield 'endless', '%s: more than %d lines for %d octets' % (
                what, steps, n)
        if not again:
            yield 'after', '%s: the intact message is decoded otherwise' % what
        r = norm(r)
        if isinstance(r, list):
            ctx.hit('errors')
            if r[0] != 'e' or 'Exception' not in r[2]:
                yield 'extraordinary', '%s: %r' % (what, r)
            continue
        ctx.hit('results')
        if kind == 'cut':
            # nothing but what the intact message states
            for hn, v in r['headers'].items():
                w = first['headers']
                if not (hn in w and v == w[hn] or hn in INIT and
                        v == INIT[hn]):
                    yield 'prefix', '%s: %s is %r' % (what, hn, v)
            if len(r['parts']) > len(first['parts']):
                yield 'prefix-parts', what
            for a, b in list(zip(r['parts'], first['parts']))[:-1]:
                if a != b:
                    yield 'prefix-parts', what
        if x['ends']:
            want = x['want']['headers']
            names = list(want)
            done = [k for k, e in zip(names, x['ends']) if e <= p]
            inbody = p >= x['ends'][-1]
            if kind == 'cut' or inbody and 'Content-Type' in want:
                for k in done:
                    ctx.hit('prefixes')
                    if k not in r['headers'] or \
                            r['headers'][k] != norm(want[k]):
                        yield 'lost', '%s: %s is %r, not %r' % (
                            what, k, r['headers'].get(k), want[k])
                ctx.hit('bodies', inbody)
