"""C25 the parts of an MMS message survive an encode and decode"""
from ..core import S, U, A, D, V
from ..mmsgen import *
from ..gen import scale
from ..ref import wsp
import json

RULE = ('messages of 0-4 slides and 0-5 own parts made from files, strings '
        'and arrays of all octets, with content types, parameters and part '
        'headers; payload sizes at the uintvar borders; encoded octets read '
        'by the reference reader and by the library; distinct = different '
        'messages')
NEED = {'messages': 380, 'parts': 1000, 'files': 250, 'sizes': 30,
        'headers': 400, 'params': 250, 'slides': 200, 'octets': 256,
        'typed': 40, 'twins': 60, 'slide_headers': 80}
EXT = {'.jpg': 'image/jpeg', '.gif': 'image/gif', '.png': 'image/png',
       '.txt': 'text/plain', '.html': 'text/html', '.zzz': None, '': None}
BIG = [16382, 16383, 16384, 16385, 40000, 65535, 65536, 131073]


def enc_params(rng):
    """parameters that the library can encode"""
    from . import c20
    return {n: v for n, v in c20.params(rng, rng.choice([0, 0, 1, 2, 4]))
            if n != 'Type'}


def py(v):
    if isinstance(v, int):
        return v if v < 2 ** 31 else {'long': str(v)}
    return S(v)


class B:
    """builds the steps of a case and what has to come out"""

    def __init__(self, rng):
        self.rng = rng
        self.s = [['c', 'm', 'messaging.mms.message:MMSMessage', []]]
        self.n = 0
        self.own, self.slides = [], []
        self.files = self.twins = self.marked = 0
        self.made = []
        self.ct = [MIXED[0], {}]

    def file(self, ext=None, data=None):
        rng = self.rng
        old = [f for f in self.made if f[0].endswith(ext or '')]
        if ext and data is None and old and rng.random() < .25:
            # the same picture or sound on several slides
            self.twins += 1
            return rng.choice(old)
        self.n += 1
        ext = rng.choice(sorted(EXT)) if ext is None else ext
        name = '%s%d%s' % (rng.choice(['f', 'a b', 'x-y', 'pic']), self.n, ext)
        data = payload(rng) if data is None else data
        self.files += 1
        self.s.append(['h', None, 'write_file', [{'p': name}, S(data)]])
        self.made.append((name, data))
        return name, data

    def part(self, size=None):
        rng = self.rng
        start = len(self.s)
        self.s.append(['c', 'p', 'messaging.mms.message:DataPart', []])
        k = rng.random()
        hs = {}
        if k < .3:
            name, data = self.file(data=payload(rng, size))
            self.s.append(['c', None, '$p.from_file', [{'p': name}]])
            ct, ps = EXT[name[name.rfind('.'):] if '.' in name else ''] or \
                'application/octet-stream', {}
            hs['Content-Location'] = name
        elif k < .45:
            data = text(rng).encode('latin-1')
            self.s.append(['c', None, '$p.set_text', [S(data)]])
            ct, ps = 'text/plain', {}
        else:
            data = payload(rng, size)
            ct = rng.choice([wsp.CT[rng.randrange(len(wsp.CT))],
                             'application/smil', 'audio/amr', 'x-foo/bar',
                             'text/x-' + token(rng, 4)])
            ps = enc_params(rng)
            a = [A(data) if rng.random() < .3 else S(data), S(ct)]
            if ps or rng.random() < .3:
                a.append(D({n: py(v) for n, v in ps.items()}))
            self.s.append(['c', None, '$p.set_data', a])
        if rng.random() < .4:
            hs['Content-ID'] = '<%s>' % token(rng, 6)
        if rng.random() < .4:
            hs['Content-Location'] = text(rng, first=35) or 'x'
        if rng.random() < .15:
            n = rng.choice(['Content-Disposition', 'Content-Language', 'Etag',
                            'X-' + token(rng, 4)])
            hs[n] = text(rng, first=35)
        for n, v in hs.items():
            if not (n == 'Content-Location' and k < .3 and v == name
                    if k < .3 else False):
                self.s.append(['si', '$p.headers', S(n), S(v)])
        self.s.append(['c', None, '$m.add_data_part', [V('$p')]])
        self.own.append([ct, ps, hs, data.decode('latin-1')])
        if rng.random() < .12:
            # another one that is just like it
            self.twins += 1
            self.s += self.s[start:]
            self.own.append(self.own[-1])

    def slide(self):
        rng = self.rng
        self.s.append(['c', 'g', 'messaging.mms.message:MMSMessagePage', []])
        order = rng.sample(['image', 'audio', 'text'], rng.randint(0, 3))
        got = {}
        for k in order:
            if k == 'text':
                t = ''.join(rng.choice('abc <>&"\' xyz') for _ in range(
                    rng.choice([0, 1, 20, 130])))
                self.s.append(['c', None, '$g.add_text', [S(t)]])
                got[k] = ['text/plain', {}, {}, t]
            else:
                name, data = self.file('.jpg' if k == 'image' else '.zzz')
                self.s.append(['c', None, '$g.add_' + k, [{'p': name}]])
                got[k] = ['image/jpeg' if k == 'image' else
                          'application/octet-stream', {},
                          {'Content-Location': name}, data.decode('latin-1')]
        for k in order:
            if rng.random() < .25:
                n = rng.choice(['Content-ID', 'Content-Location', 'X-a'])
                v = token(rng, 5)
                self.s.append(['si', '$g.%s.0.headers' % k, S(n), S(v)])
                got[k][2][n] = v
                self.marked += 1
        self.s.append(['c', None, '$m.add_page', [V('$g')]])
        if self.ct[0] != MIXED[1]:
            self.ct = [MIXED[1], {}]
        self.slides.append([got[k] for k in ('image', 'audio', 'text')
                            if k in got])

    def type(self, k, params):
        self.ct = [MIXED[k], params]
        self.s.append(['si', '$m.headers', S('Content-Type'), {'t': [
            S(MIXED[k]), D({n: py(v) for n, v in params.items()})]}])

    def done(self):
        self.s.append(['c', None, '$m.smil', []])
        self.s.append(['h', None, 'mms_rt', [V('$m')]])
        return {'s': self.s, 'x': {
            'parts': [p for g in self.slides for p in g] + self.own,
            'files': self.files, 'slides': len(self.slides), 'ct': self.ct,
            'twins': self.twins, 'marked': self.marked}}


def gen(rng, ctx):
    sizes = [0, 1, 2, 30, 31, 32, 126, 127, 128, 129, 255, 256, 257, 1000]
    for i in range(scale(ctx, 450, 6000)):
        b = B(rng)
        todo = ['slide'] * rng.choice([0, 0, 1, 2, 4]) + \
            ['part'] * rng.choice([0, 1, 2, 5])
        if rng.random() < .4:
            todo += ['type'] * rng.choice([1, 1, 2])
        rng.shuffle(todo)
        for t in todo:
            if t == 'slide':
                b.slide()
            elif t == 'type':
                b.type(rng.randrange(2), enc_params(rng))
            else:
                b.part(rng.choice(sizes))
        yield b.done()
    for n in BIG + list(range(0, 20)):
        b = B(rng)
        b.part(n)
        b.part(n)
        yield b.done()
    for c in range(0, 256, 16):
        for k in range(2):
            b = B(rng)
            d = bytes(range(c, c + 16)) * 3
            name, _ = b.file('.zzz', d)
            b.s += [['c', 'p', 'messaging.mms.message:DataPart',
                     [{'p': name}]],
                    ['c', None, '$m.add_data_part', [V('$p')]]]
            b.own.append(['application/octet-stream', {},
                          {'Content-Location': name}, d.decode('latin-1')])
            yield b.done()
    for n in (126, 127, 128, 129, 300):
        b = B(rng)
        for _ in range(n):
            b.s += [['c', 'p', 'messaging.mms.message:DataPart', []],
                    ['c', None, '$p.set_text', [S('%d' % _)]],
                    ['c', None, '$m.add_data_part', [V('$p')]]]
            b.own.append(['text/plain', {}, {}, '%d' % _])
        yield b.done()


def nontrivial(c, rs):
    return json.dumps(c['s']) if c['x']['parts'] else None


def judge(c, rs, ctx):
    x, r = c['x'], rs[-1]
    if x['ct'][1]:
        ctx.hit('typed')
    for st, q in zip(c['s'], rs):
        if not q.ok:
            yield 'refused', '%r: %r' % (st, q)
            return
    ctx.hit('messages')
    ctx.hit('files', x['files'])
    ctx.hit('slides', x['slides'])
    ctx.hit('twins', x['twins'])
    ctx.hit('slide_headers', x['marked'])
    b = r.val['bytes']
    try:
        hs, ps = wsp.read_mms(b)
    except wsp.Bad as e:
        yield 'encode', '%s: %.400s' % (e, b.hex())
        return
    ct = dict(hs)['Content-Type']
    if ct[0] != x['ct'][0] or sorted(ct[1]) != sorted(x['ct'][1].items()):
        yield 'content-type', repr(dict(hs)['Content-Type'])
    back = r.val['back']
    if not isinstance(back, dict):
        yield 'decode', repr(back)
        return
    if norm(back['ct']) != x['ct'][0]:
        yield 'content-type', repr(back['ct'])
    if norm(back['headers'])['Content-Type'] != x['ct']:
        yield 'content-type', repr(back['headers'])
    want = [['application/smil', {}, {'Content-ID': '<0000>'},
             rs[-2].val]] + x['parts']
    if len(ps or ()) != len(want) or len(back['parts']) != len(want):
        yield 'count', '%r and %r parts, not %d' % (
            ps and len(ps), len(back['parts']), len(want))
        return
    for i, (w, p, q) in enumerate(zip(want, ps, back['parts'])):
        ct, par, hd, data = w
        ctx.hit('parts')
        ctx.hit('headers', len(hd))
        ctx.hit('params', len(par))
        ctx.see('sizes', len(data))
        if i:
            for o in data if len(data) < 100 else data[:100]:
                ctx.see('octets', o)
        if p[0] != ct or sorted(p[1]) != sorted(
                (n, v) for n, v in par.items()):
            yield 'part-type', '%d: %r, not %r' % (i, p[:2], w[:2])
        if sorted(p[2]) != sorted(hd.items()):
            yield 'part-headers', '%d: %r, not %r' % (i, p[2], hd)
        if p[3] != data.encode('latin-1'):
            yield 'part-data', '%d: %.200r, not %.200r' % (i, p[3], data)
        q = norm(q)
        if q['ct'] != ct or q['ctp'] != par or q['data'] != data or \
                q['len'] != len(data) or \
                q['headers'] != dict(hd, **{'Content-Type': [ct, par]}):
            yield 'part-back', '%d: %.300r, not %.300r' % (i, q, w)
