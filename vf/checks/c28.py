"""C28 the SMIL presentation describes exactly the slides"""
import json
import re
import xml.etree.ElementTree as ET
from ..core import S, A, D, V
from ..mmsgen import *
from ..gen import scale

RULE = ('messages of 0-12 slides whose contents, times and durations are set, '
        'replaced and changed before and after the slide is added; texts and '
        'file names with markup, quotes, white space and UTF-8; the SMIL '
        'returned, listed as a part and encoded is read by an independent XML '
        'parser; distinct = different histories')
NEED = {'messages': 380, 'slides': 900, 'references': 1100, 'timed': 400,
        'clamped': 80, 'changed_later': 100, 'replaced': 120, 'utf8': 80,
        'markup': 150, 'encoded': 350}
ALPHA = 'abc xyz<>&"\'\n\r\t;=/]]>-_09'
UTF = ['é', '中', 'Ж', '€', '😀', '\u2028', '\x85', 'ñ', '\ufffd', '\x7f']


def txt(rng):
    n = rng.choice([0, 1, 3, 10, 60, 300])
    t = ''.join(rng.choice(ALPHA) if rng.random() < .8 else rng.choice(UTF)
                for _ in range(n))
    if n and rng.random() < .1:
        t = rng.choice(['<smil>', '</par>', '&amp;', '&#10;', '<!--', ']]>',
                        '%d', '%(a)s', '${x}', '"/><text src="z"/>'])
    return t


def fname(rng, k):
    return 'f%d%s%s' % (k, ''.join(rng.choice('ab &<>"\'é中;%') for _ in
                                   range(rng.choice([0, 1, 4]))),
                        rng.choice(['.jpg', '.gif', '.amr', '.zzz', '']))


def times(rng, dur):
    k = rng.random()
    if k < .4:
        return 0, 0
    if k < .5:
        return rng.choice([-1, 0, -500]), rng.choice([0, -1, -7])
    b = rng.choice([0, 1, 5, 999, 1000, 1500, rng.randint(0, dur), dur, -3])
    e = rng.choice([0, -2, max(b, 1), dur, dur + 1, 10 ** 6,
                    rng.randint(max(b, 1), max(b, 1) + 5000)])
    return b, b if 0 < e < b else e


def gen(rng, ctx):
    for i in range(scale(ctx, 450, 7000)):
        s = [['c', 'm', 'messaging.mms.message:MMSMessage', []]]
        x = {'w': 176, 'h': 220, 'later': 0, 'repl': 0}
        pages, order = [], []
        nf = 0
        if rng.random() < .2:
            x['w'], x['h'] = rng.randint(1, 4000), rng.randint(1, 4000)
            s += [['s', '$m.width', x['w']], ['s', '$m.height', x['h']]]
        n = rng.choice([0, 1, 1, 2, 2, 3, 5, 12])
        for k in range(n):
            s.append(['c', 'g%d' % k, 'messaging.mms.message:MMSMessagePage',
                      []])
            pages.append({'dur': 4000, 'image': None, 'text': None,
                          'audio': None})
        todo = []
        for k in range(n):
            todo += [(k, o) for o in ['image', 'text', 'audio', 'image',
                                      'text', 'audio', 'dur', 'dur2']
                     if rng.random() < .45]
            todo.append((k, 'add'))
        rng.shuffle(todo)
        for k, o in todo:
            p, g = pages[k], '$g%d' % k
            if o == 'add':
                s.append(['c', None, '$m.add_page', [V(g)]])
                order.append(k)
                continue
            x['later'] += k in order
            if o in ('dur', 'dur2'):
                p['dur'] = rng.choice([1, 4000, 1000, 1500, 999999, 6825,
                                       rng.randint(1, 20000)])
                s.append(['c', None, g + '.set_duration', [p['dur']]])
                continue
            x['repl'] += p[o] is not None
            b, e = times(rng, p['dur'])
            if o == 'text':
                src = txt(rng)
                a = [S(src.encode('utf-8'))]
            else:
                nf += 1
                src = fname(rng, nf)
                a = [{'p': src.encode('utf-8').decode('latin-1')}]
                s.append(['h', None, 'write_file', [a[0], S('x%d' % nf)]])
            if (b, e) != (0, 0) or rng.random() < .5:
                a += [b, e]
            s.append(['c', None, '%s.add_%s' % (g, o), a])
            if o != 'text' and rng.random() < .25:
                s.append(['h', 'z', 'slot', [V(g), S(o)]])
                if rng.random() < .5:
                    src = txt(rng).replace('\0', '') or 'q'
                    s.append(['si', '$z.headers', S('Content-Location'),
                              S(src.encode('utf-8'))])
                else:
                    src = '<%s>' % token(rng, 5)
                    s.append(['si', '$z.headers', S('Content-ID'), S(src)])
                    s.append(['di', '$z.headers', S('Content-Location')])
            p[o] = [src, b, e]
        s.append(['h', None, 'smil3', [V('$m')]])
        x['pages'] = [pages[k] for k in order]
        yield {'s': s, 'x': x}


def nontrivial(c, rs):
    return json.dumps(c['s']) if c['x']['pages'] else None


def ms(v, default):
    """SMIL clock value in milliseconds"""
    if v is None:
        return default
    m = re.fullmatch(r'\+?(\d+(?:\.\d+)?)(ms|s|min|h)?', v.strip())
    if not m:
        return v
    f = float(m.group(1)) * {'ms': 1, 's': 1000, None: 1000, 'min': 60000,
                             'h': 3600000}[m.group(2)]
    return int(round(f, 6)) if abs(f - round(f)) < 1e-6 else f


def ws(t):
    return re.sub('[\t\n]', ' ', t.replace('\r\n', '\n').replace('\r', '\n'))


def judge(c, rs, ctx):
    x = c['x']
    for st, r in zip(c['s'], rs):
        if not r.ok:
            yield 'refused', '%r: %r' % (st, r)
            return
    ctx.hit('messages')
    ctx.hit('changed_later', x['later'])
    ctx.hit('replaced', x['repl'])
    v = rs[-1].val
    doc = v['smil']
    if v['again'] != doc:
        yield 'again', '%r, then %r' % (doc, v['again'])
    if x['pages'] and v['part'] != [doc, 'application/smil']:
        yield 'part', repr(v['part'])
    if v['enc'] is not None:
        ctx.hit('encoded')
        if v['enc'] != [doc, 'application/smil']:
            yield 'encoded', repr(v['enc'])
    try:
        root = ET.fromstring(doc.encode('latin-1'))
    except Exception as e:
        yield 'xml', '%s: %s' % (e, doc)
        return
    tag = lambda e: e.tag.split('}')[-1]
    if tag(root) != 'smil' or [tag(e) for e in root] != ['head', 'body']:
        yield 'shape', doc
        return
    layout = [e for e in root[0] if tag(e) == 'layout']
    if len(layout) != 1:
        yield 'layout', doc
        return
    rl = [e for e in layout[0] if tag(e) == 'root-layout']
    reg = {e.get('id'): e for e in layout[0] if tag(e) == 'region'}
    if len(rl) != 1 or (rl[0].get('width'), rl[0].get('height')) != (
            str(x['w']), str(x['h'])):
        yield 'layout', doc
    for k in ('Image', 'Text'):
        r = reg.get(k)
        try:
            box = [int(r.get(a)) for a in ('left', 'top', 'width', 'height')]
        except Exception:
            yield 'region', '%s: %s' % (k, doc)
            continue
        if box[0] < 0 or box[1] < 0 or box[2] < 1 or box[3] < 1 or \
                box[0] + box[2] > 176 or box[1] + box[3] > 220:
            yield 'region', '%s %r is not on the screen of 176x220' % (k, box)
    pars = list(root[1])
    if len(pars) != len(x['pages']) or any(tag(p) != 'par' for p in pars):
        yield 'slides', '%d slides: %s' % (len(x['pages']), doc)
        return
    for par, want in zip(pars, x['pages']):
        ctx.hit('slides')
        dur = ms(par.get('dur'), None)
        if dur != want['dur']:
            yield 'duration', '%r, not %d' % (par.attrib, want['dur'])
        kinds = {'img': 'image', 'image': 'image', 'text': 'text',
                 'audio': 'audio'}
        got = [kinds.get(tag(e)) for e in par]
        exp = [k for k in ('image', 'text', 'audio') if want[k]]
        if sorted(map(str, got)) != sorted(exp):
            yield 'content', '%r, not %r' % (got, exp)
            continue
        for e in par:
            k = kinds[tag(e)]
            src, b, n = want[k]
            ctx.hit('references')
            ctx.hit('utf8', not src.isascii())
            ctx.hit('markup', any(ch in src for ch in '<>&"\''))
            if ws(e.get('src', '\0')) != ws(src):
                yield 'src', '%r, not %r' % (e.get('src'), src)
            r = {'image': 'Image', 'text': 'Text', 'audio': None}[k]
            if e.get('region') != r:
                yield 'ref-region', '%s: %r' % (k, e.attrib)
            wb = max(b, 0)
            we = n if 0 < n <= want['dur'] else want['dur']
            ctx.hit('timed', b > 0 or n > 0)
            ctx.hit('clamped', n > want['dur'])
            gb, ge = ms(e.get('begin'), 0), ms(e.get('end'), dur)
            # what begins after the end of the slide is never seen
            if wb <= want['dur'] and (gb != wb or ge != we):
                yield 'times', '%s (%d, %d) of %d: %r' % (
                    k, b, n, want['dur'], e.attrib)
