"""Random data with their external representations, as lists of character codes.

A datum is: int | True | False | () | ("s", codes) | ("c", code) | ("y", codes) | ("v", items) | ("p", items, tail)
with tail a non-pair datum (() for a proper list)."""
from .datum import CHAR_NAME

SYM1 = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ!$%&*/:<=>?^_~"
SYM2 = SYM1 + "0123456789+-.@"
QUOTES = {"quote": "'", "quasiquote": "`", "unquote": ",", "unquote-splicing": ",@"}


class G:
    def __init__(self, rng, char, bits=60, unicode=True, symnonascii=None):
        self.r, self.char, self.bits, self.unicode = rng, char, bits, unicode
        self.symna = unicode if symnonascii is None else symnonascii

    def code(self):
        r = self.r
        c = r.random()
        if c < 0.12:
            return r.choice([7, 8, 9, 10, 11, 12, 13, 27, 32, 34, 92, 127, 39, 40, 41, 59, 35, 44, 96, 124])
        if c < 0.16:
            return r.randrange(1, 32)
        return self.char(r)

    def string(self):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 5, 8, r.randrange(40), r.randrange(300) if r.random() < 0.2 else 4])
        return ("s", [self.code() for _ in range(n)])

    def symbol(self):
        r = self.r
        c = r.random()
        if c < 0.06:
            return ("y", [ord(x) for x in r.choice(["+", "-", "..."])])
        if c < 0.14:
            return ("y", [ord(x) for x in r.choice(list(QUOTES))])
        n = r.choice([1, 1, 2, 3, 5, 8, 20, 63, 64, 65, 200] if r.random() < 0.3 else [1, 2, 3, 4, 6])
        s = []
        for i in range(n):
            if self.symna and r.random() < 0.12:
                k = self.char(r)
                if k >= 0x80:
                    s.append(k)
                    continue
            s.append(ord(r.choice(SYM2 if i else SYM1)))
        return ("y", s)

    def num(self):
        r = self.r
        c = r.random()
        hi = (1 << (self.bits - 1)) - 1
        if c < 0.6:
            return r.randint(-99, 999)
        if c < 0.75:
            return r.choice([hi, -hi - 1, hi - 1, -hi, 0, -1])
        return r.choice([1, -1]) * r.getrandbits(r.randrange(1, self.bits))

    def datum(self, depth=4, lists=True):
        r = self.r
        c = r.random()
        if depth <= 0 or c < 0.45:
            k = r.randrange(7)
            if k == 0:
                return self.num()
            if k == 1:
                return r.random() < 0.5
            if k == 2:
                return ()
            if k == 3:
                return ("c", self.code() if r.random() < 0.97 else 0)
            if k == 4:
                return self.symbol()
            return self.string() if k == 5 else self.symbol()
        n = r.choice([0, 1, 2, 2, 3, 4, 6])
        items = [self.datum(depth - 1) for _ in range(n)]
        if c < 0.6:
            return ("v", items)
        if not items:
            return ()
        tail = ()
        if r.random() < 0.25:
            tail = self.datum(0)
        elif r.random() < 0.12:
            return ("p", [("y", [ord(x) for x in r.choice(list(QUOTES))]), items[0]], ())
        return ("p", items, tail)


def o(s):
    return [ord(c) for c in s]


def wchar(c):
    if c in CHAR_NAME:
        return o("#\\" + CHAR_NAME[c])
    if c < 0x20:
        return o("#\\x%02x" % c)
    return o("#\\") + [c]


ESC = {34: '\\"', 92: "\\\\", 7: "\\a", 8: "\\b", 9: "\\t", 10: "\\n", 11: "\\v", 12: "\\f", 13: "\\r",
       27: "\\x1b;", 127: "\\x7f;"}


def wstring(s):
    r = [34]
    for c in s:
        r += o(ESC[c]) if c in ESC else [c]
    return r + [34]


def show(d, display=False):
    """the codes of (write d) or (display d)"""
    if d is True:
        return o("#t")
    if d is False:
        return o("#f")
    if isinstance(d, int):
        return o(str(d))
    if d == ():
        return o("()")
    k = d[0]
    if k == "s":
        return list(d[1]) if display else wstring(d[1])
    if k == "c":
        return [d[1]] if display else wchar(d[1])
    if k == "y":
        return list(d[1])
    out = o("#(") if k == "v" else o("(")
    for i, x in enumerate(d[1]):
        if i:
            out.append(32)
        out += show(x, display)
    if k == "p" and d[2] != ():
        out += o(" . ") + show(d[2], display)
    return out + o(")")


def codes(s):
    return "(list->string (map integer->char '(%s)))" % " ".join(map(str, s)) if s else '(list->string (list))'


def plain(s):
    return all(0x20 <= c < 0x7f and c not in (34, 92) for c in s)


def expr(d):
    """an expression that constructs d without using the reader for more than ASCII tokens"""
    if d is True:
        return "#t"
    if d is False:
        return "#f"
    if isinstance(d, int):
        return str(d)
    if d == ():
        return "'()"
    k = d[0]
    if k == "s":
        return '(string-copy "%s")' % "".join(map(chr, d[1])) if plain(d[1]) else codes(d[1])
    if k == "c":
        return "(integer->char %d)" % d[1]
    if k == "y":
        return "(string->symbol %s)" % ('"%s"' % "".join(map(chr, d[1])) if plain(d[1]) else codes(d[1]))
    if k == "v":
        return "(vector%s)" % "".join(" " + expr(x) for x in d[1])
    if d[2] == ():
        return "(list%s)" % "".join(" " + expr(x) for x in d[1])
    out = expr(d[2])
    for x in reversed(d[1]):
        out = "(cons %s %s)" % (expr(x), out)
    return out


def text(r, d, unicode=True):
    """some text that denotes d, with free use of the lexical syntax; codes"""
    ws = lambda least: o(space(r, least))
    if d is True or d is False or d == ():
        return show(d) if d != () or r.random() < 0.6 else o("(") + ws(0) + o(")")
    if isinstance(d, int):
        c = r.random()
        s = str(d)
        if c < 0.1 and d >= 0:
            s = "+" + s
        elif c < 0.16 and abs(d) < 10 ** 12:
            s = ("-" if d < 0 else "") + "00" + str(abs(d))
        elif c < 0.4:
            k = r.choice("bodx")
            s = "#" + k + ("-" if d < 0 else r.choice(["", "", "+"])) + format(abs(d), {"b": "b", "o": "o", "d": "d", "x": r.choice("xX")}[k])
        return o(s)
    k = d[0]
    if k == "y":
        return list(d[1])
    if k == "c":
        c = d[1]
        if c in CHAR_NAME and c not in (32, 127):
            names = [CHAR_NAME[c]] + (["linefeed"] if c == 10 else [])
        elif c in (32, 127):
            names = [CHAR_NAME[c]]
        else:
            names = []
        z = r.random()
        if names and z < 0.6:
            n = r.choice(names)
            return o("#\\" + "".join(x.upper() if r.random() < 0.2 else x for x in n))
        if unicode and z < 0.8 and not (0xd800 <= c < 0xe000):
            return o("#\\x" + hexd(r, c))
        if c in (0,):
            return o("#\\nul")
        if c in (34, 92):
            return o("#\\") + [c]
        return o("#\\") + [c]
    if k == "s":
        out = [34]
        for c in d[1]:
            z = r.random()
            if c in ESC and c not in (27, 127) and (c in (34, 92) or z < 0.7):
                out += o(ESC[c])
            elif unicode and z < 0.1:
                out += o("\\x" + hexd(r, c) + ";")
            else:
                out.append(c)
        return out + [34]
    if k == "p" and len(d[1]) == 2 and d[2] == () and isinstance(d[1][0], tuple) and d[1][0] and d[1][0][0] == "y":
        name = "".join(map(chr, d[1][0][1]))
        if name in QUOTES and r.random() < 0.7:
            t = text(r, d[1][1], unicode)
            if name == "unquote" and t[0] == 64:
                return o("(unquote ") + t + o(")")
            return o(QUOTES[name]) + ws(0) + t
    out = o("#(") if k == "v" else o("(")
    items = list(d[1])
    out += ws(0)
    for i, x in enumerate(items):
        t = text(r, x, unicode)
        if i:
            out += ws(0) if selfdelim(out[-1], t[0]) and out[-2:-1] != [92] else ws(1)
        out += t
    if k == "p":
        if d[2] != ():
            out += ws(1) + o(".") + o(r.choice(" \n\t")) + ws(0) + text(r, d[2], unicode)
        elif r.random() < 0.15 and items:
            # (a . (b c)) written out
            cut = r.randint(1, len(items))
            t = text(r, ("p", items[cut:], ()) if items[cut:] else (), unicode)
            if t[0] == 40:
                head = o("(") + ws(0)
                for i, x in enumerate(items[:cut]):
                    if i:
                        head += ws(1)
                    head += text(r, x, unicode)
                out = head + ws(1) + o(". ") + ws(0) + t
    return out + ws(0) + o(")")


def hexd(r, c):
    s = format(c, "x")
    if r.random() < 0.3:
        s = s.upper()
    if r.random() < 0.3 and len(s) < 4:
        s = s.rjust(4, "0")
    return s


def selfdelim(a, b):
    """no space needed between a token ending in a and one starting with b"""
    return a in (41, 34) and b not in (46,) or b in (40, 34, 39, 96, 44) and a != 92


def space(r, least):
    s = ""
    while len(s) < least or r.random() < 0.25:
        c = r.random()
        if c < 0.75:
            s += r.choice(" \n\t\r\f\v  ")
        elif c < 0.93:
            s += ";" + "".join(r.choice("abc ()\"'#\\;|,`@") for _ in range(r.randrange(6))) + r.choice("\n\r\n")
        else:
            s += r.choice(["  ", "\r\n", " \n"])
    return s
