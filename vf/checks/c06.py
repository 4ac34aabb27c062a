"""C06 the alphabet is chosen for the text"""
from ..core import S, U, V
from ..gen import *
from ..ref import gsm, tpdu
import json

RULE = ('texts with zero, one or several characters outside of the GSM '
        'alphabet at every position, look-alikes of GSM characters, and all '
        'explicit codings; distinct = different (explicit coding, text)')
NEED = {'gsm7': 300, 'ucs2': 300, 'explicit': 100, 'refused_explicit': 30}

LOOK = 'ÀÁÂÃÈÊËÌÍÎÏÒÓÔÕÙÚÛàáâãçêëíîïðóôõúûýÿΑΒΕŁłŞşĞğ’“”–…`´¨©®°±²³µ¶·¹º»¼½¾×÷\t\x00\x1b\x7f\x80\xa0\xa6\xad¢¬ \u2009\u200b\ufb01\uff21¦ß'


def gen(rng, ctx):
    def case(tv, text, fmt, is_u=True):
        at = [] if fmt is None else [{'t': [S('fmt'), fmt]}]
        return {'s': [['h', None, 'submit', [S('600123'), tv, at]],
                      ['c', None, 'messaging.sms:is_gsm_text', [tv]]],
                'x': [fmt, text]}
    for ch in gsm.ALL:
        for t in (ch, 'a' + ch, ch + 'b', 'x' * 70 + ch, ch * 2):
            yield case(U(t), t, None)
    for ch in LOOK:
        for t in (ch, 'a' + ch, ch + 'b', 'x' * 70 + ch, 'x' * 159 + ch,
                  gsm_text(rng, 30) + ch + gsm_text(rng, 9)):
            yield case(U(t), t, None)
    for i in range(scale(ctx, 500, 8000)):
        n = rng.randint(0, 200)
        t = gsm_text(rng, n)
        if rng.random() < .6:
            for _ in range(rng.choice([1, 1, 2, 10])):
                k = rng.randint(0, len(t))
                ch = rng.choice(LOOK) if rng.random() < .5 else \
                    bmp_char(rng) if rng.random() < .7 else astral_char(rng)
                t = t[:k] + ch + t[k:]
        yield case(U(t), t, None)
    for i in range(scale(ctx, 300, 4000)):
        fmt = rng.choice([0, 4, 8])
        k = rng.random()
        n = rng.randint(0, 100)
        t = gsm_text(rng, n) if k < .4 else ucs2_text(rng, n)
        if k > .7:
            t = ''.join(chr(rng.randrange(256)) for _ in range(n))
        yield case(U(t), t, fmt)
    # a byte string that is plain ASCII
    for i in range(scale(ctx, 60, 500)):
        t = ''.join(chr(rng.randrange(32, 127)) for _ in
                    range(rng.randint(0, 200)))
        yield case(S(t), t, None)


def nontrivial(c, rs):
    return json.dumps(c['x'])


def judge(c, rs, ctx):
    fmt, text = c['x']
    r, g = rs
    isg = gsm.is_gsm(text)
    # explicit ESC is a control code of the alphabet, not a character of it
    if not g.ok or bool(g.val) != isg:
        yield 'is_gsm_text', 'is_gsm_text(%a) %r' % (text, g)
    if fmt is None:
        want = 0 if isg else 8
        if not r.ok:
            yield 'refused', '%a: %r' % (text, r)
            return
    else:
        want = fmt
        can = {0: isg, 4: all(ord(ch) < 256 for ch in text), 8: True}[fmt]
        ctx.hit('explicit')
        if not can:
            # never a different text: it has to be refused
            if r.ok:
                yield 'accepted', ('%a has no coding in %d, but gave %a' %
                                   (text, fmt, r.val[0]))
            elif not r.ordinary:
                yield 'breakdown', repr(r)
            else:
                ctx.hit('refused_explicit')
            return
        if not r.ok:
            yield 'refused', '%a in coding %d: %r' % (text, fmt, r)
            return
    ctx.hit('gsm7' if want == 0 else 'ucs2' if want == 8 else 'data8')
    for row in r.val[0]:
        try:
            p = tpdu.parse_submit(row[0])
        except tpdu.Bad as e:
            yield 'malformed', '%s: %s' % (row[0], e)
            return
        got = tpdu.alphabet(p['dcs'])
        if got != want:
            yield 'alphabet', '%a was sent in coding %r, not %r' % (text, got,
                                                                    want)
