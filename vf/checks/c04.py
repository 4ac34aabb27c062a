"""C04 every segment fits, and segments agree on what message they are of"""
from ..core import S, U
from ..gen import *
from ..ref import gsm, tpdu
import json

RULE = ('messages of every length around the single-part limit and up to 255 '
        'parts, in the three alphabets, with and without a chosen '
        'concatenation reference, and histories of several multipart messages '
        'from one object; distinct = different (coding, units, reference, '
        'history)')
NEED = {'single': 30, 'multipart': 300, 'refused_over_255': 3}
LIM = {0: 153, 4: 134, 8: 67}
ONEL = {0: 160, 4: 140, 8: 70}


def text(rng, alpha, n):
    if alpha == 0:
        return gsm_text(rng, n, rng.choice([0, .2]))
    if alpha == 4:
        return octets(rng, n)
    return ucs2_text(rng, n, rng.choice([0, .2]))


def tv(t):
    return S(t) if isinstance(t, bytes) else U(t)


def gen(rng, ctx):
    for rep in range(scale(ctx, 1, 6)):
        for alpha in (0, 4, 8):
            l1, lm = ONEL[alpha], LIM[alpha]
            ns = set(range(l1 - 6, l1 + 7))
            for k in range(2, 5):
                ns |= set(range(k * lm - 4, k * lm + 5))
            ns |= set(rng.sample(range(0, 5 * lm), 60))
            for n in ns:
                ref = rng.choice([None, rng.randrange(256), 0, 255])
                at = [{'t': [S('fmt'), alpha]}]
                if ref is not None:
                    at.append({'t': [S('rand_id'), ref]})
                if rng.random() < .4:
                    v = rng.choice([relative, absolute])(rng)[0]
                    at.append({'t': [S('validity'), v]})
                yield {'s': [['h', None, 'submit',
                              [S('+34600123456'), tv(text(rng, alpha, n)), at]]],
                       'x': {'alpha': alpha, 'n': [n], 'ref': ref}}
            for k in (128, 254, 255):
                yield {'s': [['h', None, 'submit',
                              [S('+34600123456'), tv(
                                  gsm_text(rng, k * lm, 0) if alpha == 0 else
                                  octets(rng, k * lm) if alpha == 4 else
                                  ucs2_text(rng, k * lm, 0)),
                               [{'t': [S('fmt'), alpha]}]]]],
                       'x': {'alpha': alpha, 'n': [k * lm], 'ref': None}}
            # more parts than the header can count
            for n in (255 * lm + 1, 256 * lm, 257 * lm + 3):
                t = {0: 'a' * n, 4: b'a' * n, 8: 'Ł' * n}[alpha]
                yield {'s': [['h', None, 'submit',
                              [S('600123'), tv(t), [{'t': [S('fmt'), alpha]}]]]],
                       'x': {'alpha': alpha, 'n': [n], 'ref': None,
                             'over': True}}
    # one object, several multipart messages
    for i in range(scale(ctx, 60, 800)):
        alpha = rng.choice([0, 4, 8])
        k = rng.randint(2, 6) if i % 20 else 270
        lm = LIM[alpha]
        ns = [rng.randint(ONEL[alpha] + 1, 3 * lm) for _ in range(k)]
        st = [['c', 's', 'messaging.sms:SmsSubmit',
               [S('+34600123456'), tv(text(rng, alpha, ns[0]))]],
              ['s', '$s.fmt', alpha]]
        for n in ns:
            st.append(['s', '$s.text', tv(text(rng, alpha, n))])
            st.append(['h', None, 'to_pdu', [{'v': '$s'}]])
        yield {'s': st, 'x': {'alpha': alpha, 'n': ns, 'ref': None,
                              'hist': True}}


def nontrivial(c, rs):
    return json.dumps(c['x'])


def judge(c, rs, ctx):
    x = c['x']
    alpha = x['alpha']
    if x.get('over'):
        if rs[0].ok:
            yield 'over-255', ('%d units made %d parts, the header cannot '
                               'number them' % (x['n'][0], len(rs[0].val[0])))
        elif not rs[0].ordinary:
            yield 'over-255', repr(rs[0])
        else:
            ctx.hit('refused_over_255')
        return
    if x.get('hist'):
        res = [(rs[i], x['n'][(i - 3) // 2]) for i in range(3, len(rs), 2)]
        bad = [r for r in rs[:2] if not r.ok]
        if bad:
            yield 'refused', repr(bad[0])
            return
    else:
        res = [(rs[0], x['n'][0])]
    last = None
    for r, n in res:
        if not r.ok:
            yield 'refused', '%d units, coding %d: %r' % (n, alpha, r)
            return
        rows = r.val if x.get('hist') else r.val[0]
        want_single = n <= ONEL[alpha]
        if (len(rows) == 1) != want_single:
            yield 'single-part', ('%d units in coding %d became %d part(s)' %
                                  (n, alpha, len(rows)))
            continue
        ctx.hit('single' if want_single else 'multipart')
        refs = set()
        units = []
        heads = []
        for i, (pdu, length, cnt, seq) in enumerate(rows):
            try:
                p = tpdu.parse_submit(pdu)
            except tpdu.Bad as e:
                yield 'malformed', '%s: %s' % (pdu, e)
                return
            if cnt != len(rows) or seq != i + 1:
                yield 'pdu-count', ('Pdu %d of %d says cnt=%r seq=%r' %
                                    (i + 1, len(rows), cnt, seq))
            if len(p['ud']) > 140:
                yield 'too-long', '%d octets of user data' % len(p['ud'])
            if want_single:
                if p['ies']:
                    yield 'single-with-header', repr(p['ies'])
                continue
            units.append(p['units'])
            heads.append(p['text'][:1])
            if len(p['ies']) != 1 or p['ies'][0][0] != 0 or \
                    len(p['ies'][0][1]) != 3:
                yield 'concat-ie', 'information elements %r' % p['ies']
                return
            ref, total, num = p['ies'][0][1]
            refs.add(ref)
            if total != len(rows) or num != i + 1:
                yield 'concat-count', ('part %d of %d says %d of %d' %
                                       (i + 1, len(rows), num, total))
        if want_single:
            continue
        if len(refs) != 1:
            yield 'concat-reference', 'parts of one message: %r' % refs
            continue
        ref = refs.pop()
        if x['ref'] is not None and ref != x['ref']:
            yield 'concat-reference', '%d, not the chosen %d' % (ref, x['ref'])
        if x.get('hist') and ref == last:
            yield 'concat-reference', ('two messages in a row have reference '
                                       '%d' % ref)
        last = ref
        ctx.see('references', ref)
        ctx.see('part_counts', len(rows))
        # no part is cut short for no reason: at most one unit, when the
        # next character takes two
        for k, u in enumerate(units[:-1]):
            two = alpha != 4 and heads[k + 1] and (
                heads[k + 1] in gsm.TWO if alpha == 0 else
                ord(heads[k + 1]) > 0xffff)
            if u != LIM[alpha] and not (two and u == LIM[alpha] - 1):
                yield 'part-size', ('a part of %d units before the last one '
                                    '(limit %d)' % (u, LIM[alpha]))
        if units and not 1 <= units[-1] <= LIM[alpha]:
            yield 'part-size', 'last part of %d units' % units[-1]
