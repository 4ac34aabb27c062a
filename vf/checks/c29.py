"""C29 slides and data parts keep their invariants"""
import copy
import json
from ..core import S, U, A, D, V
from ..mmsgen import *
from ..gen import scale
from .c25 import EXT

RULE = ('histories of up to 40 operations on a message, 1-3 slides and 1-3 '
        'data parts (legal and refused additions, replacement, durations, '
        'loading and setting of data, headers, adding a part twice or before '
        'it is filled); everything that can be seen is compared with a model '
        'after every operation; distinct = different histories')
NEED = {'histories': 200, 'snapshots': 1700, 'refused': 450, 'replaced': 230,
        'files': 600, 'arrays': 30, 'shared': 18, 'late': 330, 'kinds': 14, 'rewritten': 3}
OCT = 'application/octet-stream'
REL = 'application/vnd.wap.multipart.related'


class M:
    def __init__(self):
        self.ct = ['application/vnd.wap.multipart.mixed', {}]
        self.order, self.own = [], []
        self.pages = {}
        self.parts = {}

    def view(self):
        v = {'pages': {}, 'parts': {}}
        for k, p in self.pages.items():
            v['pages'][k] = {n: p[n] and [self.pv(p[n][0])] + p[n][1:]
                             for n in ('image', 'audio', 'text')}
            v['pages'][k]['duration'] = p['duration']
            v['pages'][k]['n'] = sum(p[n] is not None for n in
                                     ('image', 'audio', 'text'))
        for k, p in self.parts.items():
            v['parts'][k] = self.pv(p)
        v['ct'] = self.ct
        v['order'] = [v['pages'][k] for k in self.order]
        v['list'] = [sorted((self.pv(self.pages[k][n][0])
                             for n in ('image', 'audio', 'text')
                             if self.pages[k][n]), key=repr)
                     for k in self.order]
        v['own'] = [v['parts'][k] for k in self.own]
        return v

    @staticmethod
    def pv(p):
        return {'headers': p['headers'], 'data': p['data'],
                'len': len(p['data']), 'ct': p['headers']['Content-Type'][0]}


def filepart(name, data):
    ext = name[name.rfind('.'):] if '.' in name else ''
    return {'headers': {'Content-Location': name,
                        'Content-Type': [EXT.get(ext) or OCT, {}]},
            'data': data}


BADTIMES = [('a', 0, 'TypeError'), (0, None, 'TypeError'),
            ({'f': 1.5}, 0, 'TypeError'), (0, {'f': 2.0}, 'TypeError'),
            (5, 4, 'ValueError'), (2, 1, 'ValueError'),
            (10 ** 6, 10 ** 6 - 1, 'ValueError'), (S('1'), S('2'), 'TypeError')]


def gen(rng, ctx):
    for i in range(scale(ctx, 230, 3200)):
        m = M()
        s = [['c', 'm', 'messaging.mms.message:MMSMessage', []]]
        x = []
        pg = ['g%d' % k for k in range(rng.randint(1, 3))]
        pt = ['p%d' % k for k in range(rng.randint(1, 3))]
        nf = 0
        for k in pg:
            s.append(['c', k, 'messaging.mms.message:MMSMessagePage', []])
            m.pages[k] = {'image': None, 'audio': None, 'text': None,
                          'duration': 4000}
        for k in pt:
            if rng.random() < .3:
                nf += 1
                name = 'i%d%s' % (nf, rng.choice(sorted(EXT)))
                data = payload(rng)
                s.append(['h', None, 'write_file', [{'p': name}, S(data)]])
                s.append(['c', k, 'messaging.mms.message:DataPart',
                          [{'p': name}]])
                m.parts[k] = filepart(name, data.decode('latin-1'))
            else:
                s.append(['c', k, 'messaging.mms.message:DataPart', []])
                m.parts[k] = {'headers': {'Content-Type': [OCT, {}]},
                              'data': ''}
        s.append(['h', None, 'write_file', [{'p': 'sub/in'}, S('x')]])
        snap = ['h', None, 'snap', [V('$m'), [V('$' + k) for k in pg],
                                    [V('$' + k) for k in pt]]]
        for _ in range(rng.choice([3, 8, 15, 40])):
            g, p = rng.choice(pg), rng.choice(pt)
            page, part = m.pages[g], m.parts[p]
            op = rng.choice(['image', 'audio', 'text', 'image', 'audio',
                             'text', 'bad', 'bad', 'bad', 'dur', 'baddur',
                             'page', 'part', 'file', 'badfile', 'data',
                             'settext', 'header', 'ct', 'mct'])
            want, late = None, False
            if op in ('image', 'audio'):
                nf += 1
                name = 'f%d%s' % (nf, rng.choice(sorted(EXT)))
                data = payload(rng)
                s.append(['h', None, 'write_file', [{'p': name}, S(data)]])
                b = rng.choice([0, 0, 5, -1, rng.randint(0, 9999)])
                e = rng.choice([0, 0, -1, max(b, 0), max(b, 1) + 7])
                a = [{'p': name}]
                a += [b, e] if (b, e) != (0, 0) or rng.random() < .3 else []
                st = ['c', None, '$%s.add_%s' % (g, op), a]
                late = page[op] is not None
                page[op] = [filepart(name, data.decode('latin-1')), b, e]
            elif op == 'text':
                t = text(rng)
                b = rng.choice([0, 0, 5, -1])
                e = rng.choice([0, 0, -1, max(b, 0), max(b, 1) + 7])
                a = [S(t)]
                a += [b, e] if (b, e) != (0, 0) or rng.random() < .3 else []
                st = ['c', None, '$%s.add_text' % g, a]
                late = page[op] is not None
                page[op] = [{'headers': {'Content-Type': ['text/plain', {}]},
                             'data': t}, b, e]
            elif op == 'bad':
                k = rng.choice(['image', 'audio', 'text'])
                b, e, want = rng.choice(BADTIMES)
                if rng.random() < .5:
                    b, e = rng.choice([(0, 0), (1, 2)])
                    if k == 'text':
                        arg, want = rng.choice([(5, 'TypeError'),
                                                (None, 'TypeError'),
                                                (U('é'), 'TypeError'),
                                                ([], 'TypeError')])
                    else:
                        arg, want = rng.choice([
                            ({'p': 'missing.jpg'}, 'OSError'),
                            ({'p': 'sub'}, 'OSError'), (5, 'TypeError'),
                            (None, 'TypeError'), (S(''), 'OSError')])
                else:
                    arg = S('text') if k == 'text' else {'p': 'sub/in'}
                st = ['c', None, '$%s.add_%s' % (g, k), [arg, b, e]]
            elif op == 'dur':
                d = rng.choice([1, 4000, 7, 10 ** 6, rng.randint(1, 99999)])
                st = ['c', None, '$%s.set_duration' % g, [d]]
                page['duration'] = d
            elif op == 'baddur':
                d, want = rng.choice([(0, 'ValueError'), (-1, 'ValueError'),
                                      (-4000, 'ValueError'),
                                      (S('5'), 'TypeError'),
                                      (None, 'TypeError'),
                                      ({'f': 4.0}, 'TypeError')])
                st = ['c', None, '$%s.set_duration' % g, [d]]
            elif op == 'page':
                if g in m.order:
                    continue
                st = ['c', None, '$m.add_page', [V('$' + g)]]
                m.order.append(g)
                if m.ct[0] != REL:
                    m.ct = [REL, {}]
            elif op == 'part':
                st = ['c', None, '$m.add_data_part', [V('$' + p)]]
                m.own.append(p)
            elif op == 'file':
                nf += 1
                name = 'f%d%s' % (nf, rng.choice(sorted(EXT)))
                data = payload(rng)
                s.append(['h', None, 'write_file', [{'p': name}, S(data)]])
                st = ['c', None, '$%s.from_file' % p, [{'p': name}]]
                part.clear()
                part.update(filepart(name, data.decode('latin-1')))
            elif op == 'badfile':
                st = ['c', None, '$%s.from_file' % p, [
                    rng.choice([{'p': 'missing'}, {'p': 'sub'}, S('')])]]
                want = 'OSError'
            elif op == 'data':
                data = payload(rng)
                ct = rng.choice(['image/jpeg', 'x/y', OCT, token(rng, 5)])
                ps = rng.choice([None, {}, {'Charset': 'utf-8'},
                                 {'Name': 'n', 'x': 5}])
                a = [A(data) if rng.random() < .4 else S(data), S(ct)]
                op += ' array' if 'a' in a[0] else ''
                if ps is not None:
                    a.append(D({k: v if isinstance(v, int) else S(v)
                                for k, v in ps.items()}))
                st = ['c', None, '$%s.set_data' % p, a]
                part.clear()
                part.update({'headers': {'Content-Type': [ct, ps or {}]},
                             'data': data.decode('latin-1')})
            elif op == 'settext':
                t = text(rng)
                st = ['c', None, '$%s.set_text' % p, [S(t)]]
                part.clear()
                part.update({'headers': {'Content-Type': ['text/plain', {}]},
                             'data': t})
            elif op == 'header':
                n = rng.choice(['Content-ID', 'Content-Location', 'X-a'])
                v = token(rng, 4)
                st = ['si', '$%s.headers' % p, S(n), S(v)]
                part['headers'][n] = v
            elif op == 'ct':
                v = rng.choice(['image/gif', 'text/plain', 'a/b'])
                st = ['s', '$%s.content_type' % p, S(v)]
                part['headers']['Content-Type'] = [v, {}]
            else:
                m.ct = rng.choice([[REL, {}], ['multipart/mixed', {}],
                                   [REL, {'Start': '<0>'}]])
                st = ['si', '$m.headers', S('Content-Type'),
                      {'t': [S(m.ct[0]), D({k: S(v) for k, v in
                                            m.ct[1].items()})]}]
                m.ct = [m.ct[0], dict(m.ct[1])]
            s.append(st)
            n = len(s) - 1
            s.append(snap)
            x.append([n, op, want, late, copy.deepcopy(m.view())])
        # the file of a part changes after it was read
        again = None
        for k in pt:
            p = m.parts[k]
            name = p['headers'].get('Content-Location')
            if {'p': name} in [a for st in s[-3:-1] if st[0] == 'c'
                               for a in st[3]] and rng.random() < .8:
                data = p['data'].encode('latin-1')
                data = rng.choice([b'', data + b'x', data[1:], data * 2])
                s.append(['h', None, 'write_file', [{'p': name}, S(data)]])
                s.append(snap)
                again = [len(s) - 1, pt.index(k), [m.pv(p), m.pv(dict(
                    p, data=data.decode('latin-1')))]]
                break
        yield {'s': s, 'x': {'ops': x, 'pg': pg, 'pt': pt, 'again': again,
                             'shared': len(set(m.own)) < len(m.own)}}


def nontrivial(c, rs):
    return json.dumps(c['s']) if c['x']['ops'] else None


def judge(c, rs, ctx):
    x = c['x']
    ctx.hit('histories')
    ctx.hit('shared', x['shared'])
    ctx.hit('files', sum(st[2] == 'write_file' for st in c['s']))
    if x['again']:
        n, k, may = x['again']
        got = rs[n].ok and norm(rs[n].val)['parts'][k]
        got = got and {n: got[n] for n in may[0]}
        ctx.hit('rewritten')
        if got not in may:
            yield 'rewritten', 'its file was rewritten: %.700r, not %.700r' % (
                got or rs[n], may)
    for n, op, want, late, v in x['ops']:
        st, r, sn = c['s'][n], rs[n], rs[n + 1]
        ctx.see('kinds', op)
        ctx.hit('arrays', op == 'data array')
        ctx.hit('replaced', late)
        if want is None and not r.ok:
            yield 'refused', '%r: %r' % (st, r)
            return
        if want is not None:
            if r.ok or not r.isa(want):
                yield 'accepted', '%r: %r, not %s' % (st, r, want)
                return
            ctx.hit('refused')
        if not sn.ok:
            yield 'view', 'after %r: %r' % (st, sn)
            return
        ctx.hit('snapshots')
        got = norm(sn.val)
        ctx.hit('late', op in ('image', 'audio', 'text', 'dur', 'file',
                               'data', 'settext') and bool(v['order']))
        slim = lambda p: {k: p[k] for k in ('headers', 'data', 'len', 'ct')}
        gp = {}
        for k, p in zip(x['pg'], got['pages']):
            gp[k] = {a: p[a] and [slim(p[a][0])] + p[a][1:]
                     for a in ('image', 'audio', 'text')}
            gp[k].update(duration=p['duration'], n=p['n'])
            if p['parts'] != p['n']:
                yield 'count', 'after %r: %r' % (st, p)
        if gp != v['pages']:
            yield 'slide', 'after %r: %.700r, not %.700r' % (st, gp, v['pages'])
        pp = {k: slim(p) for k, p in zip(x['pt'], got['parts'])}
        if pp != v['parts']:
            yield 'part', 'after %r: %.700r, not %.700r' % (st, pp, v['parts'])
        if got['ct'] != v['ct']:
            yield 'type', 'after %r: %r, not %r' % (st, got['ct'], v['ct'])
        l = [slim(p) for p in got['list']]
        if v['order']:
            if not l or l[0]['ct'] != 'application/smil':
                yield 'list', 'after %r: no SMIL: %.500r' % (st, l)
                return
            l = l[1:]
        if got['npages'] != len(v['order']):
            yield 'pages', 'after %r: %r' % (st, got['npages'])
        i = 0
        for ps in v['list']:
            if sorted(l[i:i + len(ps)], key=repr) != sorted(ps, key=repr):
                yield 'list', 'after %r: %.700r, not %.700r' % (
                    st, l[i:i + len(ps)], ps)
            i += len(ps)
        if l[i:] != v['own']:
            yield 'list', 'after %r: %.700r, not %.700r' % (
                st, l[i:], v['own'])
