"""3GPP TS 23.038 6.2.1 default alphabet and its extension table, written from
the specification's table."""
BASIC = ('@£$¥èéùìòÇ\nØø\rÅå'
         'Δ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ'
         ' !"#¤%&\'()*+,-./'
         '0123456789:;<=>?'
         '¡ABCDEFGHIJKLMNO'
         'PQRSTUVWXYZÄÖÑÜ§'
         '¿abcdefghijklmno'
         'pqrstuvwxyzäöñüà')
assert len(BASIC) == 128
ESC = {0x0A: '\x0c', 0x14: '^', 0x28: '{', 0x29: '}', 0x2F: '\\', 0x3C: '[',
       0x3D: '~', 0x3E: ']', 0x40: '|', 0x65: '€'}
ENC = {c: bytes([i]) for i, c in enumerate(BASIC) if i != 0x1b}
ENC.update({c: bytes([0x1b, i]) for i, c in ESC.items()})
ALL = ''.join(ENC)
ONE = ''.join(c for c in ENC if len(ENC[c]) == 1)
TWO = ''.join(c for c in ENC if len(ENC[c]) == 2)


def is_gsm(text):
    return all(c in ENC for c in text)


def encode(text):
    return b''.join(ENC[c] for c in text)


def decode(septets):
    """text of a septet sequence the specification defines: None when it uses
    an escape the extension table does not define"""
    out = []
    it = iter(septets)
    for s in it:
        if s == 0x1b:
            n = next(it, None)
            if n is None or n not in ESC:
                return None
            out.append(ESC[n])
        else:
            out.append(BASIC[s])
    return ''.join(out)


def pack(septets, offset_bits=0):
    """septets -> octets, first septet starting offset_bits in"""
    acc, n = 0, offset_bits
    for s in septets:
        acc |= (s & 0x7f) << n
        n += 7
    return acc.to_bytes((n + 7) // 8, 'little')


def unpack(octets, count, offset_bits=0):
    acc = int.from_bytes(octets, 'little') >> offset_bits
    return [(acc >> (7 * i)) & 0x7f for i in range(count)]


def utf16_units(text):
    b = text.encode('utf-16-be', 'surrogatepass')
    return [b[i] << 8 | b[i + 1] for i in range(0, len(b), 2)]
