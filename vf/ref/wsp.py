"""Independent model of WAP-230 (WSP) section 8.4 encodings and of the MMS PDU
encapsulation (WAP-209 / OMA-MMS-ENC), reader and writer, written from the
specifications.  Bytes in, plain Python values out."""


class Bad(Exception):
    pass


# table 40: content types
CT = '''00 */*
01 text/*
02 text/html
03 text/plain
04 text/x-hdml
05 text/x-ttml
06 text/x-vCalendar
07 text/x-vCard
08 text/vnd.wap.wml
09 text/vnd.wap.wmlscript
0A text/vnd.wap.wta-event
0B multipart/*
0C multipart/mixed
0D multipart/form-data
0E multipart/byteranges
0F multipart/alternative
10 application/*
11 application/java-vm
12 application/x-www-form-urlencoded
13 application/x-hdmlc
14 application/vnd.wap.wmlc
15 application/vnd.wap.wmlscriptc
16 application/vnd.wap.wta-eventc
17 application/vnd.wap.uaprof
18 application/vnd.wap.wtls-ca-certificate
19 application/vnd.wap.wtls-user-certificate
1A application/x-x509-ca-cert
1B application/x-x509-user-cert
1C image/*
1D image/gif
1E image/jpeg
1F image/tiff
20 image/png
21 image/vnd.wap.wbmp
22 application/vnd.wap.multipart.*
23 application/vnd.wap.multipart.mixed
24 application/vnd.wap.multipart.form-data
25 application/vnd.wap.multipart.byteranges
26 application/vnd.wap.multipart.alternative
27 application/xml
28 text/xml
29 application/vnd.wap.wbxml
2A application/x-x968-cross-cert
2B application/x-x968-ca-cert
2C application/x-x968-user-cert
2D text/vnd.wap.si
2E application/vnd.wap.sic
2F text/vnd.wap.sl
30 application/vnd.wap.slc
31 text/vnd.wap.co
32 application/vnd.wap.coc
33 application/vnd.wap.multipart.related
34 application/vnd.wap.sia
35 text/vnd.wap.connectivity-xml
36 application/vnd.wap.connectivity-wbxml
37 application/pkcs7-mime
38 application/vnd.wap.hashed-certificate
39 application/vnd.wap.signed-certificate
3A application/vnd.wap.cert-response
3B application/xhtml+xml
3C application/wml+xml
3D text/css
3E application/vnd.wap.mms-message
3F application/vnd.wap.rollover-certificate
40 application/vnd.wap.locc+wbxml
41 application/vnd.wap.loc+xml
42 application/vnd.syncml.dm+wbxml
43 application/vnd.syncml.dm+xml
44 application/vnd.syncml.notification
45 application/vnd.wap.xhtml+xml
46 application/vnd.wv.csp.cir
47 application/vnd.oma.dd+xml
48 application/vnd.oma.drm.message
49 application/vnd.oma.drm.content
4A application/vnd.oma.drm.rights+xml
4B application/vnd.oma.drm.rights+wbxml'''
CT = {int(l[:2], 16): l[3:] for l in CT.split('\n')}
CTN = {v: k for k, v in CT.items()}

# table 39: header field names; number, encoding version, name
HDR = '''00 1 Accept
01 1 Accept-Charset
02 1 Accept-Encoding
03 1 Accept-Language
04 1 Accept-Ranges
05 1 Age
06 1 Allow
07 1 Authorization
08 1 Cache-Control
09 1 Connection
0A 1 Content-Base
0B 1 Content-Encoding
0C 1 Content-Language
0D 1 Content-Length
0E 1 Content-Location
0F 1 Content-MD5
10 1 Content-Range
11 1 Content-Type
12 1 Date
13 1 Etag
14 1 Expires
15 1 From
16 1 Host
17 1 If-Modified-Since
18 1 If-Match
19 1 If-None-Match
1A 1 If-Range
1B 1 If-Unmodified-Since
1C 1 Location
1D 1 Last-Modified
1E 1 Max-Forwards
1F 1 Pragma
20 1 Proxy-Authenticate
21 1 Proxy-Authorization
22 1 Public
23 1 Range
24 1 Referer
25 1 Retry-After
26 1 Server
27 1 Transfer-Encoding
28 1 Upgrade
29 1 User-Agent
2A 1 Vary
2B 1 Via
2C 1 Warning
2D 1 WWW-Authenticate
2E 1 Content-Disposition
2F 2 X-Wap-Application-Id
30 2 X-Wap-Content-URI
31 2 X-Wap-Initiator-URI
32 2 Accept-Application
33 2 Bearer-Indication
34 2 Push-Flag
35 2 Profile
36 2 Profile-Diff
37 2 Profile-Warning
38 3 Expect
39 3 TE
3A 3 Trailer
3B 3 Accept-Charset
3C 3 Accept-Encoding
3D 3 Cache-Control
3E 3 Content-Range
3F 3 X-Wap-Tod
40 3 Content-ID
41 3 Set-Cookie
42 3 Cookie
43 3 Encoding-Version
44 4 Profile-Warning
45 4 Content-Disposition
46 4 X-WAP-Security
47 4 Cache-Control'''
HDR = {int(l[:2], 16): (int(l[3]), l[5:]) for l in HDR.split('\n')}

# table 38: parameters; number, encoding version, kind of value, name
PAR = '''00 1 q Q
01 1 charset Charset
02 1 version Level
03 1 integer Type
05 1 text Name
06 1 text Filename
07 1 field Differences
08 1 short Padding
09 2 constrained Type
0A 2 text Start
0B 2 text Start-info
0C 3 text Comment
0D 3 text Domain
0E 3 delta Max-Age
0F 3 text Path
10 3 none Secure
11 4 short SEC
12 4 value MAC
13 4 date Creation-date
14 4 date Modification-date
15 4 date Read-date
16 4 integer Size
17 4 value Name
18 4 value Filename
19 4 value Start
1A 4 value Start-info
1B 4 value Comment
1C 4 value Domain
1D 4 value Path'''
PAR = {int(l.split()[0], 16): (int(l.split()[1]), l.split()[2], l.split()[3])
       for l in PAR.split('\n')}

# table 42 / IANA MIBenum
CHARSET = {0x07EA: 'big5', 0x03E8: 'iso-10646-ucs-2', 4: 'iso-8859-1',
           5: 'iso-8859-2', 6: 'iso-8859-3', 7: 'iso-8859-4', 8: 'iso-8859-5',
           9: 'iso-8859-6', 10: 'iso-8859-7', 11: 'iso-8859-8',
           12: 'iso-8859-9', 17: 'shift_JIS', 3: 'us-ascii', 106: 'utf-8'}

# WAP-209 table 8
MMS = '''01 enc Bcc
02 enc Cc
03 uri Content-Location
04 ct Content-Type
05 date Date
06 bool Delivery-Report
07 dtime Delivery-Time
08 expiry Expiry
09 from From
0A class Message-Class
0B text Message-ID
0C mtype Message-Type
0D version MMS-Version
0E long Message-Size
0F prio Priority
10 bool Read-Reply
11 bool Report-Allowed
12 rstatus Response-Status
13 enc Response-Text
14 vis Sender-Visibility
15 status Status
16 enc Subject
17 enc To
18 text Transaction-Id'''
MMS = {int(l.split()[0], 16): (l.split()[1], l.split()[2])
       for l in MMS.split('\n')}
MMSN = {v[1]: k for k, v in MMS.items()}
MTYPE = {0x80: 'm-send-req', 0x81: 'm-send-conf', 0x82: 'm-notification-ind',
         0x83: 'm-notifyresp-ind', 0x84: 'm-retrieve-conf',
         0x85: 'm-acknowledge-ind', 0x86: 'm-delivery-ind'}
CLASS = {0x80: 'Personal', 0x81: 'Advertisement', 0x82: 'Informational',
         0x83: 'Auto'}
PRIO = {0x80: 'Low', 0x81: 'Normal', 0x82: 'High'}
VIS = {0x80: 'Hide', 0x81: 'Show'}
RSTATUS = {0x80: 'Ok', 0x81: 'Error-unspecified', 0x82: 'Error-service-denied',
           0x83: 'Error-message-format-corrupt',
           0x84: 'Error-sending-address-unresolved',
           0x85: 'Error-message-not-found', 0x86: 'Error-network-problem',
           0x87: 'Error-content-not-accepted',
           0x88: 'Error-unsupported-message'}
STATUS = {0x80: 'Expired', 0x81: 'Retrieved', 0x82: 'Rejected',
          0x83: 'Deferred', 0x84: 'Unrecognised'}

SEPARATORS = set(b'()<>@,;:\\"/[]?={} \t')


def is_token(s):
    b = s.encode('latin-1') if isinstance(s, str) else s
    return len(b) > 0 and all(32 < c < 127 and c not in SEPARATORS for c in b)


# ------------------------------------------------------------------ writer
def uintvar(n):
    out = [n & 0x7f]
    n >>= 7
    while n:
        out.append(0x80 | n & 0x7f)
        n >>= 7
    return bytes(reversed(out))


def short(n):
    assert 0 <= n <= 127
    return bytes([0x80 | n])


def long(n):
    b = n.to_bytes(max(1, (n.bit_length() + 7) // 8), 'big')
    assert len(b) <= 30
    return bytes([len(b)]) + b


def integer(n):
    return short(n) if n < 128 else long(n)


def vlen(n):
    return bytes([n]) if n <= 30 else b'\x1f' + uintvar(n)


def lat(s):
    return s.encode('latin-1') if isinstance(s, str) else bytes(s)


def text(s):
    b = lat(s)
    assert 0 not in b
    return (b'\x7f' if b and b[0] > 126 else b'') + b + b'\0'


def quoted(s):
    return b'"' + lat(s) + b'\0'


def token(s):
    assert is_token(s), s
    return lat(s) + b'\0'


def version(s):
    p = s.split('.')
    if len(p) <= 2 and all(x.isdigit() and x == str(int(x)) for x in p) and \
            1 <= int(p[0]) <= 7 and (len(p) == 1 or int(p[1]) <= 14):
        return short(int(p[0]) << 4 | (int(p[1]) if len(p) == 2 else 15))
    return text(s)


def media(s):
    return short(CTN[s]) if s in CTN else text(s)


def ct_value(s, params=b''):
    """content type value; params: octets"""
    if not params:
        return media(s)
    b = media(s) + params
    return vlen(len(b)) + b


def enc_string(s, charset=None):
    if charset is None:
        return text(s)
    b = integer(charset) + text(s)
    return vlen(len(b)) + b


# ------------------------------------------------------------------ reader
class Cur:
    def __init__(self, b):
        self.b, self.p = bytes(b), 0

    @property
    def left(self):
        return len(self.b) - self.p

    def peek(self):
        if self.p >= len(self.b):
            raise Bad('ends early')
        return self.b[self.p]

    def one(self):
        c = self.peek()
        self.p += 1
        return c

    def take(self, n):
        if n > self.left:
            raise Bad('%d octets wanted, %d left' % (n, self.left))
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def uintvar(self):
        n = 0
        while True:
            c = self.one()
            n = n << 7 | c & 0x7f
            if not c & 0x80:
                return n

    def vlen(self):
        c = self.one()
        if c <= 30:
            return c
        if c == 31:
            return self.uintvar()
        raise Bad('no value length: %#x' % c)

    def long(self):
        n = self.one()
        if not 1 <= n <= 30:
            raise Bad('long-integer length %d' % n)
        return int.from_bytes(self.take(n), 'big')

    def integer(self):
        c = self.peek()
        if c & 0x80:
            return self.one() & 0x7f
        return self.long()

    def to_nul(self):
        e = self.b.find(b'\0', self.p)
        if e < 0:
            raise Bad('no end of string')
        r = self.b[self.p:e]
        self.p = e + 1
        return r

    def text(self):
        c = self.peek()
        if c > 127:
            raise Bad('text starts with %#x' % c)
        if c == 127:
            self.one()
        return self.to_nul().decode('latin-1')

    def token(self):
        b = self.to_nul()
        if not is_token(b):
            raise Bad('no token: %r' % b)
        return b.decode('latin-1')

    def text_value(self):
        c = self.peek()
        if c == 0:
            self.one()
            return ''
        if c == 34:
            self.one()
            return self.to_nul().decode('latin-1')
        return self.token()

    def media(self):
        c = self.peek()
        if c & 0x80 or c <= 30:
            n = self.integer()
            if n not in CT:
                raise Bad('unassigned content type %d' % n)
            return CT[n]
        if c < 32 or c == 127:
            raise Bad('media type starts with %d' % c)
        return self.to_nul().decode('latin-1')

    def version(self):
        if self.peek() & 0x80:
            n = self.one() & 0x7f
            if n & 15 == 15:
                return '%d' % (n >> 4)
            return '%d.%d' % (n >> 4, n & 15)
        return self.text()

    def param(self):
        c = self.peek()
        if c & 0x80 or c <= 30:
            n = self.integer()
            if n not in PAR:
                raise Bad('unassigned parameter %d' % n)
            kind, name = PAR[n][1:]
            f = {'q': self.uintvar, 'charset': self.integer,
                 'version': self.version, 'integer': self.integer,
                 'text': self.text, 'short': self.integer,
                 'constrained': self.constrained, 'delta': self.integer,
                 'none': self.one, 'value': self.text_value,
                 'date': self.long, 'field': self.integer}[kind]
            return name, f()
        name = self.token()
        c = self.peek()
        if c & 0x80 or 1 <= c <= 30:
            return name, self.integer()
        return name, self.text_value()

    def constrained(self):
        if self.peek() & 0x80:
            return self.one() & 0x7f
        return self.to_nul().decode('latin-1')

    def content_type(self):
        """-> media type, [(name, value)]"""
        c = self.peek()
        if c <= 31:
            n = self.vlen()
            sub = Cur(self.take(n))
            m = sub.media()
            ps = []
            while sub.left:
                ps.append(sub.param())
            return m, ps
        if c & 0x80:
            n = self.one() & 0x7f
            if n not in CT:
                raise Bad('unassigned content type %d' % n)
            return CT[n], []
        if c == 127:
            raise Bad('media type starts with 127')
        return self.to_nul().decode('latin-1'), []

    def enc_string(self):
        c = self.peek()
        if c <= 31 and c != 0:
            sub = Cur(self.take(self.vlen()))
            if sub.peek() == 128:
                sub.one()
            else:
                sub.integer()
            t = sub.text()
            if sub.left:
                raise Bad('value longer than its text')
            return t
        return self.text()

    def mms_header(self):
        c = self.peek()
        if c & 0x80:
            n = self.one() & 0x7f
            if n not in MMS:
                raise Bad('unassigned MMS field %d' % n)
            kind, name = MMS[n]
            return name, getattr(self, 'mms_' + kind)()
        name = self.token()
        return name, self.text()

    def mms_enc(self):
        return self.enc_string()

    def mms_uri(self):
        return self.text()

    mms_text = mms_uri

    def mms_ct(self):
        return self.content_type()

    def mms_date(self):
        return self.long()

    mms_long = mms_date

    def mms_bool(self):
        c = self.one()
        if c not in (128, 129):
            raise Bad('boolean %d' % c)
        return c == 128

    def mms_dtime(self):
        sub = Cur(self.take(self.vlen()))
        t = sub.one()
        if t not in (128, 129):
            raise Bad('time token %d' % t)
        v = (t, sub.long() if t == 128 else sub.integer())
        if sub.left:
            raise Bad('value too long')
        return v

    mms_expiry = mms_dtime

    def mms_from(self):
        sub = Cur(self.take(self.vlen()))
        t = sub.one()
        v = None
        if t == 128:
            v = sub.enc_string()
        elif t != 129:
            raise Bad('from token %d' % t)
        if sub.left:
            raise Bad('value too long')
        return v

    def mms_class(self):
        if self.peek() in CLASS:
            return CLASS[self.one()]
        return self.token()

    def table(self, t):
        c = self.one()
        if c not in t:
            raise Bad('unassigned value %#x' % c)
        return t[c]

    def mms_mtype(self):
        return self.table(MTYPE)

    def mms_version(self):
        if not self.peek() & 0x80:
            raise Bad('textual MMS version')
        return self.version()

    def mms_prio(self):
        return self.table(PRIO)

    def mms_rstatus(self):
        return self.table(RSTATUS)

    def mms_vis(self):
        return self.table(VIS)

    def mms_status(self):
        return self.table(STATUS)

    def part_header(self):
        """a WSP header of a body part: -> name, text"""
        c = self.peek()
        if c & 0x80:
            n = self.one() & 0x7f
            if n not in HDR:
                raise Bad('unassigned header %d' % n)
            name = HDR[n][1]
        else:
            name = self.token()
            if self.peek() == 34 and name == 'Content-ID':
                pass
        if c & 0x80 and self.peek() == 34:
            self.one()
            return name, self.to_nul().decode('latin-1')
        return name, self.text()


def read_mms(b):
    """-> headers [(name, value)], parts [(type, params, headers, data)] or
    None without body"""
    c = Cur(b)
    hs = []
    while c.left:
        n, v = c.mms_header()
        hs.append((n, v))
        if n == 'Content-Type':
            break
    if not c.left:
        return hs, None
    parts = []
    for _ in range(c.uintvar()):
        hl = c.uintvar()
        dl = c.uintvar()
        h = Cur(c.take(hl))
        ct, ps = h.content_type()
        hh = []
        while h.left:
            hh.append(h.part_header())
        parts.append((ct, ps, hh, c.take(dl)))
    if c.left:
        raise Bad('%d octets after the last part' % c.left)
    return hs, parts


# --------------------------------------------------------- message writer
def mms_field(name):
    return short(MMSN[name])


def multipart(parts):
    """parts: (content type octets, other header octets, data)"""
    b = uintvar(len(parts))
    for ct, hs, data in parts:
        b += uintvar(len(ct) + len(hs)) + uintvar(len(data)) + ct + hs + data
    return b
