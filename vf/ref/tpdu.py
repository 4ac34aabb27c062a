"""Independent 3GPP TS 23.040 codec: parses SMS-SUBMIT, builds SMS-DELIVER and
SMS-STATUS-REPORT.  Every octet is accounted for."""
from . import gsm


class Bad(Exception):
    pass


class Cur:
    def __init__(self, b):
        self.b, self.p = b, 0

    def take(self, n=1):
        if self.p + n > len(self.b):
            raise Bad('PDU ends %d octet(s) short at offset %d' %
                      (self.p + n - len(self.b), self.p))
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def one(self):
        return self.take(1)[0]


def semi(octets, digits):
    out = []
    for i in range(digits):
        o = octets[i // 2]
        d = (o >> 4) if i % 2 else (o & 15)
        if d > 9:
            raise Bad('semi-octet %x is no digit' % d)
        out.append('%d' % d)
    if digits % 2 and octets[-1] >> 4 != 15:
        raise Bad('odd address not filled with F')
    return ''.join(out)


def parse_submit(hexs):
    if len(hexs) % 2:
        raise Bad('odd number of hex characters')
    b = bytes.fromhex(hexs)
    c = Cur(b)
    r = {}
    n = c.one()
    if n == 0:
        r['smsc'] = None
    else:
        a = c.take(n)
        toa, body = a[0], a[1:]
        if not body:
            raise Bad('service centre address without digits')
        digs = len(body) * 2
        if body[-1] >> 4 == 15:
            digs -= 1
        r['smsc'] = (toa, semi(body, digs))
    r['smsc_octets'] = n + 1
    r['tpdu_octets'] = len(b) - (n + 1)
    fo = c.one()
    r['first'] = fo
    r['mti'] = fo & 3
    r['rd'] = bool(fo & 4)
    r['vpf'] = (fo >> 3) & 3
    r['srr'] = bool(fo & 0x20)
    r['udhi'] = bool(fo & 0x40)
    r['rp'] = bool(fo & 0x80)
    if r['mti'] != 1:
        raise Bad('TP-MTI %d is not SMS-SUBMIT' % r['mti'])
    r['mr'] = c.one()
    dl = c.one()
    toa = c.one()
    r['dest'] = (toa, semi(c.take((dl + 1) // 2), dl))
    r['pid'] = c.one()
    r['dcs'] = c.one()
    r['vp'] = None
    if r['vpf'] == 2:
        r['vp'] = c.one()
    elif r['vpf'] in (1, 3):
        r['vp'] = c.take(7)
    r['udl'] = c.one()
    ud = b[c.p:]
    r['ud'] = ud
    r.update(parse_ud(ud, r['udl'], alphabet(r['dcs']), r['udhi']))
    return r


def alphabet(dcs):
    """0 = 7 bit, 4 = 8 bit, 8 = UCS2 (23.038 section 4); None = reserved"""
    g = dcs >> 4
    if g <= 7:
        if dcs & 0x20:
            return None
        return {0: 0, 1: 4, 2: 8, 3: None}[(dcs >> 2) & 3]
    if g in (12, 13):
        return 0
    if g == 14:
        return 8
    if g == 15:
        return 4 if dcs & 4 else 0
    return None


def parse_ud(ud, udl, alpha, udhi):
    """-> ies, text (str or bytes), units per alphabet"""
    r = {'ies': [], 'text': None}
    if len(ud) > 140:
        raise Bad('user data of %d octets' % len(ud))
    hl = 0
    if alpha == 0:
        need = (udl * 7 + 7) // 8
    else:
        need = udl
    if len(ud) != need:
        raise Bad('TP-UDL %d needs %d octets of user data, %d present' %
                  (udl, need, len(ud)))
    if udhi:
        if not ud:
            raise Bad('TP-UDHI without user data header')
        hl = ud[0] + 1
        if hl > len(ud):
            raise Bad('user data header longer than user data')
        p = 1
        while p < hl:
            if p + 2 > hl:
                raise Bad('information element cut')
            iei, l = ud[p], ud[p + 1]
            if p + 2 + l > hl:
                raise Bad('information element cut')
            r['ies'].append((iei, ud[p + 2:p + 2 + l]))
            p += 2 + l
    r['udh_octets'] = hl
    if alpha == 0:
        hs = (hl * 8 + 6) // 7
        n = udl - hs
        if n < 0:
            raise Bad('TP-UDL shorter than its header')
        sept = gsm.unpack(ud, n, hs * 7)
        # unused bits
        r['septets'] = sept
        r['units'] = n
        r['text'] = gsm.decode(sept)
        if r['text'] is None:
            raise Bad('septets end in or contain an undefined escape')
    elif alpha == 4:
        r['text'] = ud[hl:]
        r['units'] = udl - hl
    elif alpha == 8:
        body = ud[hl:]
        if len(body) % 2:
            raise Bad('odd number of UCS2 octets')
        r['units'] = len(body) // 2
        try:
            r['text'] = body.decode('utf-16-be')
        except UnicodeDecodeError:
            raise Bad('UCS2 text with half a surrogate pair')
    else:
        raise Bad('reserved data coding scheme')
    return r


# ------------------------------------------------------------------ building
# TS 23.040, 9.1.2.3
SEMI = str.maketrans('*#abc', 'abcde')


def addr_semi(digits):
    d = digits.translate(SEMI) + ('f' if len(digits) % 2 else '')
    return bytes(int(d[i + 1] + d[i], 16) for i in range(0, len(d), 2))


def smsc(number, ton=None):
    """number '+...' or national, None for no address"""
    if number is None:
        return b'\0'
    toa = 0x91 if number[0] == '+' else 0x81
    if ton is not None:
        toa = ton
    body = addr_semi(number.lstrip('+'))
    return bytes([len(body) + 1, toa]) + body


def address(kind, value, toa=None):
    """TP-OA/DA/RA"""
    if kind == 'alpha':
        s = gsm.encode(value)
        body = gsm.pack(s)
        semis = (len(s) * 7 + 3) // 4
        return bytes([semis, 0xD0 if toa is None else toa]) + body
    digits = value.lstrip('+')
    if toa is None:
        toa = 0x91 if value[0] == '+' else 0x81
    return bytes([len(digits), toa]) + addr_semi(digits)


def scts(y, mo, d, h, mi, s, quarters, raw_tz=None):
    """seven semi-octet swapped octets; quarters = quarter hours from GMT"""
    def bcd(n):
        return (n % 10) << 4 | n // 10
    if raw_tz is None:
        q = abs(quarters)
        tz = bcd(q)
        if quarters < 0:
            tz |= 0x08
    else:
        tz = raw_tz
    return bytes([bcd(y % 100), bcd(mo), bcd(d), bcd(h), bcd(mi), bcd(s), tz])


def user_data(alpha, text, udh=None):
    """-> TP-UDL, TP-UD.  text: str (0, 8) or bytes (4); udh: IE octets"""
    hdr = b'' if udh is None else bytes([len(udh)]) + udh
    if alpha == 0:
        sept = gsm.encode(text)
        hs = (len(hdr) * 8 + 6) // 7
        packed = gsm.pack(sept, hs * 7)
        ud = bytes(hdr) + packed[len(hdr):] if hdr else packed
        return hs + len(sept), ud
    if alpha == 4:
        ud = hdr + text
    else:
        ud = hdr + text.encode('utf-16-be')
    return len(ud), ud


def deliver(csca=None, oa=('num', '+34600123456'), pid=0, dcs=0, ts=None,
            alpha=0, text='', udh=None, first=0x04, csca_toa=None, oa_toa=None):
    fo = first & ~0x43
    if udh is not None:
        fo |= 0x40
    udl, ud = user_data(alpha, text, udh)
    b = smsc(csca, csca_toa) + bytes([fo]) + address(*oa, toa=oa_toa)
    b += bytes([pid, dcs]) + (ts or scts(11, 1, 2, 3, 4, 5, 0))
    b += bytes([udl]) + ud
    return b


def status_report(csca, ref, ra, ts, dt, st, first=0x06, tail=b''):
    b = smsc(csca) + bytes([(first & ~3) | 2, ref]) + address(*ra) + ts + dt
    if st is not None:
        b += bytes([st])
    return b + tail
