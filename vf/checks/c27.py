"""C27 encoding an MMS message is repeatable, pure and safe for files"""
import json
from ..core import S, A, D, V, DT
from ..mmsgen import *
from ..gen import scale
from ..ref import wsp
from . import c24, c25

RULE = ('histories of a message (headers, slides, parts, changes) with '
        'encode/encode/to_file/from_file after random steps, compared with a '
        'message built by the same steps without them; targets that exist, '
        'are longer, are a source of a part; encoding failures by header, '
        'part header, parameter and vanished file, and the encode after the '
        'repair; targets that cannot be written; files of each size about a block; octets decoded from memory and file; distinct = different '
        'histories')
NEED = {'histories': 150, 'snapshots': 450, 'targets': 60, 'failures': 100,
        'repaired': 90, 'kept': 50, 'memfile': 120, 'grown': 120,
        'unwritable': 100, 'sizes': 90}
BADH = [('Message-Size', -1), ('Message-Size', S('x')), ('To', None),
        ('Subject', 5), ('X-Foo', 7), ('X-a b', S('v')), ('From', None),
        ('MMS-Version', 1), ('Subject', S('a\0b')), ('Cc', S('\0')),
        ('X-(', S('v')), ('Content-Type', None), ('Content-Type', S('x')),
        ('To', [S('a'), S('b')])]
BADP = [('Content-ID', 5), ('Content-Location', None), ('X-a b', S('v')),
        ('Content-Type', None), ('Content-ID', S('a\0b')), ('X-Foo', 3)]


def headers(b, rng, n):
    for _ in range(n):
        k = rng.choice(c24.ENC + ['Transaction-Id', 'MMS-Version',
                                  'Message-Type'])
        b.s.append(['si', '$m.headers', S(k), c24.py(c24.value_for(rng, k))])


def change(b, rng):
    """one change of the message"""
    k = rng.random()
    if k < .25:
        b.slide()
    elif k < .5:
        b.part()
    elif k < .7:
        headers(b, rng, 1)
    elif k < .8:
        b.s.append(['s', '$m.' + rng.choice(['width', 'height']),
                    rng.randint(1, 999)])
    elif k < .9 and b.slides:
        i = rng.randrange(len(b.slides))
        b.s.append(['h', 'z', 'page', [V('$m'), i]])
        if rng.random() < .5:
            b.s.append(['c', None, '$z.set_duration', [rng.randint(1, 9999)]])
        else:
            b.s.append(['c', None, '$z.add_text', [S(token(rng, 9)),
                                                   rng.randint(0, 99)]])
    else:
        b.s.append(['si', '$m.headers', S('Content-Type'),
                    {'t': [S(rng.choice(MIXED)), D({})]}])


def gen(rng, ctx):
    for i in range(scale(ctx, 190, 2600)):
        b = c25.B(rng)
        headers(b, rng, rng.randint(0, 4))
        marks = []
        tid = True
        if rng.random() < .08:
            b.s.append(['di', '$m.headers', S('Transaction-Id')])
            tid = False
        for _ in range(rng.randint(1, 5)):
            for _ in range(rng.choice([1, 1, 2, 3])):
                change(b, rng)
            marks.append(len(b.s))
        steps, plain = [], list(b.s)
        at, k = {}, 0
        names = ['out.mms', 'o2', 'a b.mms']
        pre = []
        for f in names[:2]:
            if rng.random() < .5:
                pre.append(['h', None, 'write_file', [
                    {'p': f}, S(payload(rng, rng.choice([0, 5, 9000])))]])
        files = [st[3][0]['p'] for st in b.s if st[1:3] == [None, 'write_file']]
        for j, st in enumerate(b.s):
            steps.append(st)
            if j + 1 in marks:
                t = rng.choice(names)
                have = [f for st in steps if st[1:3] == [None, 'write_file']
                        for f in [st[3][0]['p']]]
                if have and rng.random() < .15 and j + 1 == marks[-1]:
                    t = rng.choice(have)
                steps.append(['h', None, 'pure', [V('$m'), {'p': t}]])
        s = pre + steps
        idx = [j for j, st in enumerate(s) if st[2] == 'pure']
        # the same without encoding in between
        q = [[x for x in st] for st in plain] + [
            ['h', None, 'mms_rt', [V('$m')]]]
        yield {'s': s + q, 'x': ['hist', idx, len(pre), tid]}
    for i in range(scale(ctx, 130, 1500)):
        b = c25.B(rng)
        headers(b, rng, rng.randint(0, 3))
        for _ in range(rng.randint(0, 3)):
            change(b, rng)
        s = b.s
        tgt = {'p': 'target'}
        if rng.random() < .7:
            s.append(['h', None, 'write_file', [
                tgt, S(payload(rng, rng.choice([0, 1, 50, 5000])))]])
        if rng.random() < .5:
            s.append(['c', None, '$m.to_file', [tgt]])
        kind = rng.choice(['header', 'file', 'part', 'param', 'date'])
        fix = []
        if kind == 'header':
            n, v = rng.choice(BADH)
            s.append(['si', '$m.headers', S(n), v])
            fix = [['si', '$m.headers', S(n), {'t': [S(MIXED[0]), D({})]}]] \
                if n == 'Content-Type' else \
                [['si', '$m.headers', S(n), S('1.0')]] \
                if n == 'MMS-Version' else [['di', '$m.headers', S(n)]]
        elif kind == 'date':
            s.append(['si', '$m.headers', S('Subject'), DT(2011, 1, 2)])
            fix = [['di', '$m.headers', S('Subject')]]
        else:
            s.append(['c', 'p', 'messaging.mms.message:DataPart', []])
            if kind == 'file':
                s += [['h', None, 'write_file', [{'p': 'gone'}, S('gone')]],
                      ['c', None, '$p.from_file', [{'p': 'gone'}]],
                      ['h', None, 'remove_file', [{'p': 'gone'}]]]
                fix = [['h', None, 'write_file', [{'p': 'gone'}, S('gone')]]]
            elif kind == 'part':
                n, v = rng.choice(BADP)
                s += [['c', None, '$p.set_text', [S('hi')]],
                      ['si', '$p.headers', S(n), v]]
                fix = [['c', None, '$p.set_text', [S('hi')]]]
            else:
                s.append(['c', None, '$p.set_data', [
                    S('hi'), S('text/plain'),
                    D({rng.choice(['Start', 'Name', 'Charset', 'Q', 'a b',
                                   'Level', 'Type']):
                       rng.choice([{'obj': 1}, []])})]])
                fix = [['c', None, '$p.set_text', [S('hi')]]]
            s.append(['c', None, '$m.add_data_part', [V('$p')]])
        s = s + [['h', None, 'fails', [V('$m'), tgt]]]
        n = len(s) - 1
        s = s + fix + [['h', None, 'pure', [V('$m'), tgt]]]
        yield {'s': s, 'x': ['fail', n, kind]}
    # a full device, and what is no file
    for i in range(scale(ctx, 50, 600)):
        b = c25.B(rng)
        headers(b, rng, rng.randint(0, 3))
        for _ in range(rng.randint(0, 2)):
            change(b, rng)
        if rng.random() < .6:
            b.part(rng.choice([0, 5, 3000, 8000, 8192, 9000, 40000]))
        yield {'s': b.s + [
            ['h', None, 'unwritable', [V('$m'), {'p': 'none'}, {'p': ''}]],
            ['h', None, 'pure', [V('$m'), {'p': 'target'}]]],
            'x': ['full', len(b.s)]}
    # files of each size about a block
    sizes = [n * b + d for b in (256, 512, 1000, 1024, 4096, 8192, 65536)
             for n in ((1, 2, 3, 5) if b < 8192 else (1, 2) if b < 65536
                       else (1,)) for d in (-2, -1, 0, 1, 2)]
    if scale(ctx, 0, 1):
        sizes += list(range(130, 1400)) + [
            n * b + d for b in (16384, 32768, 65536, 131072)
            for n in (1, 2, 3) for d in (-1, 0, 1)]
    for i in range(0, len(sizes), 30):
        b = c25.B(rng)
        headers(b, rng, rng.randint(0, 2))
        if rng.random() < .5:
            b.part(rng.choice([0, 5, 60]))
        yield {'s': b.s + [
            ['c', 'p', 'messaging.mms.message:DataPart', []],
            ['c', None, '$m.add_data_part', [V('$p')]],
            ['h', None, 'sized', [V('$m'), V('$p'), sizes[i:i + 30],
                                  {'p': 'sized'}]]],
            'x': ['sized', sizes[i:i + 30]]}
    for i in range(scale(ctx, 150, 3000)):
        m = message(rng)[0]
        k = rng.random()
        if k < .3:
            m = m[:rng.randrange(len(m) + 1)]
        elif k < .6 and m:
            m = bytearray(m)
            for _ in range(rng.choice([1, 2, 9])):
                m[rng.randrange(len(m))] = rng.randrange(256)
        elif k < .65:
            m = bytes(rng.randrange(256) for _ in range(rng.randrange(40)))
        yield {'s': [['h', None, 'both', [A(m), {'p': 'in.mms'}]]],
               'x': ['both']}


def nontrivial(c, rs):
    return json.dumps(c['s'])


def content(b, tid):
    """what octets state; the order of the headers is free"""
    hs, ps = wsp.read_mms(b)
    if not tid:
        hs = [h for h in hs if h[0] != 'Transaction-Id']
    return sorted(map(repr, hs)), ps


def pure(r, tid, ctx):
    v = r.val
    ctx.hit('snapshots')
    if not all(v['same']):
        yield 'changed', 'the message changed by encoding: %r, %s' % (
            v['same'], v['v0'][:500])
    if v['files'] is not True:
        yield 'file', 'from_file is not from_data: %.900r' % v['files']
    b = v['b']
    if tid and not b[0] == b[1]:
        yield 'repeat', 'second encode: %s, first %s' % (
            b[1].hex()[:300], b[0].hex()[:300])
    if tid and b[2] != b[0]:
        yield 'written', 'to_file: %s, encode %s' % (
            b[2].hex()[:300], b[0].hex()[:300])
    if not tid:
        c = [content(x, tid) for x in b]
        if c[1] != c[0] or c[2] != c[0]:
            yield 'repeat', repr(c)[:900]


def judge(c, rs, ctx):
    x = c['x']
    if x[0] == 'both':
        if not rs[0].ok:
            yield 'refused', repr(rs[0])
            return
        ctx.hit('memfile')
        a, b, same = rs[0].val
        if repr(norm(a)) != repr(norm(b)):
            yield 'file', '%r from memory, %r from file' % (a, b)
        if not same:
            yield 'file-changed', 'from_file changed the file'
        return
    for i, (st, r) in enumerate(zip(c['s'], rs)):
        if not r.ok:
            yield 'refused', '%r: %r' % (st, r)
            return
    if x[0] == 'hist':
        ctx.hit('histories')
        for i in x[1]:
            yield from pure(rs[i], x[3], ctx)
        if x[2]:
            ctx.hit('targets')
        if len(x[1]) > 1:
            ctx.hit('grown')
        last = content(rs[x[1][-1]].val['b'][0], x[3])
        fresh = content(rs[-1].val['bytes'], x[3])
        if last != fresh:
            yield 'history', 'encoded before: %.500r, at first: %.500r' % (
                last, fresh)
        return
    if x[0] == 'sized':
        for size, (n, same, a, b) in zip(x[1], rs[-1].val):
            ctx.hit('sizes', n == size)
            if not same:
                yield 'written', 'to_file of %d octets' % n
            if a is not True or b is not True:
                yield 'file', 'a file of %d octets: read from the file ' \
                    '%.300r, from memory %.300r' % (n, a, b)
        return
    if x[0] == 'full':
        for what, r in zip(('a full device', 'no directory', 'a directory'),
                           rs[x[1]].val):
            ctx.hit('unwritable')
            if not (isinstance(r, list) and r and r[0] == 'e' and
                    'Exception' in r[2]):
                yield 'unwritten', 'to_file to %s: %r' % (what, r)
        yield from pure(rs[-1], True, ctx)
        return
    a, b, before, after = rs[x[1]].val
    for r in (a, b):
        if not (isinstance(r, list) and r and r[0] == 'e' and
                'Exception' in r[2]):
            # nothing failed: a value that is encoded after all
            return
    ctx.hit('failures')
    if before is not None:
        ctx.hit('kept')
        if after != before:
            yield 'lost', 'target was %.80r, is %.80r' % (before, after)
    ctx.hit('repaired')
    yield from pure(rs[-1], True, ctx)
