"""The character sets of the supported encodings: code value <-> bytes."""


def _utf8(r):
    c = r.random()
    if c < 0.5:
        n = r.randrange(0x20, 0x7f)
    elif c < 0.65:
        n = r.randrange(0x80, 0x800)
    elif c < 0.85:
        n = r.choice([r.randrange(0x800, 0xd800), r.randrange(0xe000, 0x10000)])
    elif c < 0.93:
        n = r.randrange(0x10000, 0x110000)
    else:
        n = r.choice([0x7e, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x85, 0xa0, 0xad, 0x2028, 0xfeff, 0x3000])
    return n


def _ascii(r):
    return r.randrange(0x20, 0x7f)


def _g94(r):
    return r.choice([0xa1, 0xfe, r.randrange(0xa1, 0xff)])


def _eucjp(r):
    c = r.random()
    if c < 0.4:
        return _ascii(r)
    if c < 0.75:
        return _g94(r) << 8 | _g94(r)
    if c < 0.87:
        return 0x8e00 | r.choice([0xa1, 0xdf, r.randrange(0xa1, 0xe0)])
    return 0x8f0000 | _g94(r) << 8 | _g94(r)


def _euc(r):
    return _ascii(r) if r.random() < 0.45 else _g94(r) << 8 | _g94(r)


def _sjis(r):
    c = r.random()
    if c < 0.4:
        return _ascii(r)
    if c < 0.55:
        return r.choice([0xa1, 0xdf, r.randrange(0xa1, 0xe0)])
    hi = r.choice([0x81, 0x9f, 0xe0, 0xfc, r.randrange(0x81, 0xa0), r.randrange(0xe0, 0xfd)])
    lo = r.choice([0x40, 0x7e, 0x80, 0xfc, 0x5c, 0x7c, r.randrange(0x40, 0x7f), r.randrange(0x80, 0xfd)])
    return hi << 8 | lo


def _uni(r):
    return _ascii(r) if r.random() < 0.5 else r.choice([0x80, 0xff, r.randrange(0x80, 0x100)])


GEN = {"UTF-8": _utf8, "EUC-JP": _eucjp, "EUC-CN": _euc, "EUC-KR": _euc, "Shift_JIS": _sjis, "ISO-8859-1": _uni}
NAMES = list(GEN)


def encode(name, code):
    if name == "UTF-8":
        return chr(code).encode("utf-8")
    out = []
    while code:
        out.append(code & 255)
        code >>= 8
    return bytes(out[::-1]) or b"\0"


def valid(name, code):
    if code < 0:
        return False
    if name == "UTF-8":
        return code <= 0x10ffff and not 0xd800 <= code < 0xe000
    if name == "ISO-8859-1":
        return code <= 0xff
    if code < 0x80:
        return True
    b = encode(name, code)
    g = lambda x: 0xa1 <= x <= 0xfe
    if name == "Shift_JIS":
        if len(b) == 1:
            return 0xa1 <= b[0] <= 0xdf
        return len(b) == 2 and (0x81 <= b[0] <= 0x9f or 0xe0 <= b[0] <= 0xfc) and (0x40 <= b[1] <= 0xfc and b[1] != 0x7f)
    if len(b) == 2 and g(b[0]) and g(b[1]):
        return True
    if name == "EUC-JP":
        return len(b) == 2 and b[0] == 0x8e and 0xa1 <= b[1] <= 0xdf or len(b) == 3 and b[0] == 0x8f and g(b[1]) and g(b[2])
    return False
