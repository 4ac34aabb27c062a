"""Input generators shared by the checks."""
from .core import S, U, TD, DT
from .ref import gsm

EMOJI = [0x10000, 0x10437, 0x1F600, 0x1F4A9, 0x20000, 0x2F9F4, 0xE0001,
         0xF0000, 0x10FFFF, 0x103FF, 0x10400, 0x1FFFF]


def digits(rng, n):
    return ''.join(rng.choice('0123456789') for _ in range(n))


def dialled(rng, n):
    """the digits of a received number"""
    if rng.random() < .75:
        return digits(rng, n)
    return ''.join(rng.choice('0123456789*#abc') for _ in range(n))


def number(rng, lo=3, hi=20, n=None):
    n = n or rng.randint(lo, hi)
    return ('+' if rng.random() < .5 else '') + digits(rng, n)


def pystr(rng, s):
    """an ASCII text as Python 2 str or unicode"""
    return S(s) if rng.random() < .6 else U(s)


def gsm_text(rng, units, esc=0.15):
    """GSM text of exactly `units` septets"""
    out, n = [], 0
    while n < units:
        if units - n >= 2 and rng.random() < esc:
            out.append(rng.choice(gsm.TWO))
            n += 2
        else:
            out.append(rng.choice(gsm.ONE))
            n += 1
    return ''.join(out)


def bmp_char(rng):
    while True:
        k = rng.random()
        if k < .4:
            c = rng.randint(0x20, 0x7ff)
        elif k < .9:
            c = rng.randint(0x800, 0xffff)
        else:
            c = rng.choice([0, 1, 0x1b, 0x7f, 0xff, 0x100, 0xd7ff, 0xe000,
                            0xfffd, 0xfffe, 0xffff, 0xfeff, 0x2028])
        if not 0xd800 <= c <= 0xdfff:
            return chr(c)


def astral_char(rng):
    if rng.random() < .5:
        return chr(rng.choice(EMOJI))
    return chr(rng.randint(0x10000, 0x10ffff))


def ucs2_text(rng, units, astral=0.15):
    """text of exactly `units` UTF-16 code units"""
    out, n = [], 0
    while n < units:
        if units - n >= 2 and rng.random() < astral:
            out.append(astral_char(rng))
            n += 2
        else:
            out.append(bmp_char(rng))
            n += 1
    return ''.join(out)


def non_gsm(rng, text):
    """make sure an UCS2 text is needed"""
    if gsm.is_gsm(text) and text:
        i = rng.randrange(len(text))
        text = text[:i] + rng.choice('ŁЖ中あ∑“') + text[i + 1:]
    return text


def octets(rng, n):
    k = rng.random()
    if k < .1:
        return bytes([rng.choice([0, 0x1b, 0x20, 0x7f, 0x80, 0xff])]) * n
    return bytes(rng.randrange(256) for _ in range(n))


def relative(rng):
    """encoded timedelta within the representable range, and its seconds"""
    k = rng.random()
    if k < .3:
        s = rng.randint(300, 43200)
    elif k < .5:
        s = rng.randint(43200, 86400)
    elif k < .8:
        s = rng.randint(86400, 30 * 86400)
    else:
        s = rng.randint(30 * 86400, 63 * 7 * 86400)
    return TD(s // 86400, s % 86400), s


def absolute(rng, quarters=None):
    y = rng.randint(1970, 2068)
    mo = rng.randint(1, 12)
    d = rng.randint(1, 28)
    a = (y, mo, d, rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    if quarters is None:
        quarters = rng.choice([None, 0, 4, -4, 12, -12, 22, -14, 23, -38,
                               rng.randint(-56, 56)])
    tz = None if quarters is None else {'fo': quarters * 15}
    return DT(*a, tz=tz), a, quarters


def ref_relative(sec):
    """TP-VP octet of the longest period not over sec seconds (23.040
    9.2.3.12.1), and the period"""
    best = None
    for v in range(256):
        p = vp_seconds(v)
        if p <= sec:
            best = v
    return best


def vp_seconds(v):
    if v <= 143:
        return (v + 1) * 300
    if v <= 167:
        return 43200 + (v - 143) * 1800
    if v <= 196:
        return (v - 166) * 86400
    return (v - 192) * 604800


def ref_absolute(a, quarters):
    from .ref import tpdu
    return tpdu.scts(*a, quarters or 0)


# checks whose thorough runs are as long as they may be
LONG = ('C07', 'C21', 'C22', 'C27', 'C30', 'C31', 'C32', 'C34', 'C35')


def scale(ctx, quick, thorough=None):
    if not ctx.thorough:
        return quick
    n = thorough or quick * 10
    if isinstance(n, int) and getattr(ctx, 'pid', 'C35') not in LONG:
        n *= 4
    return n
