"""C15 a long SMS survives sending, reordering and reassembly"""
from ..core import S, U
from ..gen import *
from ..ref import gsm, tpdu
import json

RULE = ('journeys of 1-5 messages (each alphabet, 0-255 parts, from one or '
        'several objects and senders) through a model network that turns '
        'SUBMITs into DELIVERs, repeats and shuffles them, and messages of '
        'other senders with 16 bit references; put together by the '
        'attributes and by the data of the old API; distinct = '
        'different journeys; non-trivial = at least one multipart message')
NEED = {'messages': 900, 'multipart': 400, 'parts': 2500, 'repeated': 150,
        'foreign': 60}
ASSUME = ['the receiver groups parts by sender, reference and total, as TS '
          '23.040 says']


def message(rng, i, fmt=None):
    alpha = rng.choice([0, 0, 4, 8]) if fmt is None else fmt
    one, mp = {0: (160, 153), 4: (140, 134), 8: (70, 67)}[alpha]
    k = rng.random()
    if k < .25:
        n = rng.randint(0, one)
    elif k < .4:
        n = one + rng.randint(-1, 3)
    elif k < .7:
        n = rng.randint(2, 5) * mp + rng.randint(-3, 3)
    else:
        n = rng.randint(one + 1, 8 * mp)
    if alpha == 0:
        t = gsm_text(rng, n, rng.choice([0, .1, .6, 1]))
        tv = U(t)
    elif alpha == 4:
        t = octets(rng, n)
        tv, t = S(t), t.decode('latin-1')
    else:
        t = non_gsm(rng, ucs2_text(rng, n, rng.choice([0, .2, 1])))
        tv = U(t)
    at = []
    if alpha == 4 or rng.random() < .3 and (alpha or gsm.is_gsm(t)) or \
            fmt is not None:
        at.append({'t': [S('fmt'), alpha]})
    at.append({'t': [S('rand_id'), (i * 50 + rng.randrange(50)) % 256]})
    if rng.random() < .3:
        at.append({'t': [S('validity'), rng.choice([relative, absolute])(
            rng)[0]]})
    if rng.random() < .2:
        at.append({'t': [S('klass'), rng.randrange(4)]})
    if rng.random() < .2:
        at.append({'t': [S('csca'), S(number(rng))]})
    if rng.random() < .2:
        at.append({'t': [S('request_status'), True]})
    return t, tv, at


def gen(rng, ctx):
    for j in range(scale(ctx, 420, 6000)):
        same = rng.random() < .3
        fmt = rng.choice([0, 4, 8]) if same else None
        senders = [number(rng) for _ in range(2)]
        msgs, texts = [], []
        for i in range(rng.randint(1, 5)):
            t, tv, at = message(rng, i, fmt)
            snd = rng.choice(senders)
            msgs.append([S(number(rng)), tv, at,
                         S(tpdu.smsc(rng.choice([None, '+34600000001', '123'])
                                     ).hex()),
                         S(tpdu.address('num', snd).hex()),
                         S(tpdu.scts(2011, 1, 2, 3, 4, i, 0).hex())])
            texts.append([snd, t])
        yield {'s': [['h', None, 'journey', [msgs, rng.randrange(1 << 30),
                                             rng.choice([0, 0, 1, 3]),
                                             same]]],
               'x': texts}
    # messages of other senders, some with the same low octet of a 16 bit
    # reference
    for j in range(scale(ctx, 60, 1000)):
        refs = rng.sample([0x105, 0x205, 0x1234, 0x34, 0xff, 0x1ff, 0xff00,
                           rng.randrange(65536)], rng.randint(1, 4))
        snd = '+34600' + digits(rng, 4)
        pdus, texts = [], []
        for ref in set(refs):
            alpha = rng.choice([0, 8])
            n = rng.choice([2, 3, 3, 5, 129, 255]) if j % 6 == 0 else \
                rng.randint(2, 5)
            whole = ''
            for k in range(n):
                t = gsm_text(rng, rng.randint(1, 152), .1)
                if len(gsm.encode(t)) > 152:
                    t = t[:70]
                if alpha == 8:
                    t = ucs2_text(rng, rng.randint(1, 66), .1)
                whole += t
                u = bytes([8, 4, ref >> 8, ref & 255, n, k + 1])
                pdus.append(tpdu.deliver(
                    csca=None, oa=('num', snd), dcs=alpha, udh=u, alpha=alpha,
                    text=t, ts=tpdu.scts(2011, 1, 2, 3, 4, 5, 0)).hex())
            texts.append([snd, whole])
        rng.shuffle(pdus)
        yield {'s': [['h', None, 'receive', [[S(p) for p in pdus]]]],
               'x': texts}
    for n in (100, 255):
        for alpha, mp in ((0, 153), (4, 134), (8, 67)):
            t = gsm_text(rng, n * mp, 0) if alpha == 0 else \
                octets(rng, n * mp).decode('latin-1') if alpha == 4 else \
                ucs2_text(rng, n * mp, 0)
            tv = S(t) if alpha == 4 else U(t)
            yield {'s': [['h', None, 'journey', [
                [[S('123456'), tv, [{'t': [S('fmt'), alpha]}], S('00'),
                  S(tpdu.address('num', '+346').hex()),
                  S(tpdu.scts(2011, 1, 2, 3, 4, 5, 0).hex())]], n, 2,
                False]]], 'x': [['+346', t]]}


def nontrivial(c, rs):
    if any(len(t) > 70 for _, t in c['x']):
        return json.dumps(c['s'])


def judge(c, rs, ctx):
    r = rs[0]
    if not r.ok:
        yield 'refused', '%a: %r' % ([(s, len(t)) for s, t in c['x']], r)
        return
    ctx.hit('parts', len(r.val))
    ctx.hit('messages', len(c['x']))
    if c['s'][0][2] == 'receive':
        ctx.hit('foreign')
    # a receiver may use the attributes or the data of the old API
    yield from together(c, [v[:3] for v in r.val], ctx)
    yield from together(c, [v[3:] for v in r.val], ctx)


def together(c, vals, ctx):
    whole = []
    parts = {}
    for num, cc, text in vals:
        if cc is None:
            if (num, text) not in whole:
                whole.append((num, text))
            continue
        ref, cnt, seq = cc
        g = parts.setdefault((num, ref, cnt), {})
        if seq in g:
            ctx.hit('repeated')
            if g[seq] != text:
                yield 'ambiguous', ('two parts %d of %r: %a and %a' %
                                    (seq, (num, ref, cnt), g[seq], text))
        g[seq] = text
    for (num, ref, cnt), g in parts.items():
        ctx.hit('multipart')
        if set(g) != set(range(1, cnt + 1)):
            yield 'incomplete', ('parts %r of %d of reference %d' %
                                 (sorted(g), cnt, ref))
            continue
        whole.append((num, ''.join(g[i] for i in sorted(g))))
    want = sorted(set(map(tuple, c['x'])))
    if sorted(set(whole)) != want:
        bad = [w for w in want if w not in whole] or \
            [w for w in whole if w not in want]
        yield 'text', ('sent or received but not the other: %a ... (%d '
                       'characters)' % (bad[0][1][:80], len(bad[0][1])))
