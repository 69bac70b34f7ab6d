"""Scheme data in Python, with a writer and a reader of their own.

int -> exact integer, True/False -> booleans, Sym, Str, Char, Pair, NIL, Vec,
UNDEF, EOF.  None of this shares code with the interpreter under test."""


class Sym:
    __slots__ = ("name",)
    table = {}

    def __new__(cls, name):
        s = cls.table.get(name)
        if s is None:
            s = object.__new__(cls)
            s.name = name
            cls.table[name] = s
        return s

    def __repr__(self):
        return "Sym(%r)" % self.name


class Str:
    __slots__ = ("s", "const")

    def __init__(self, s, const=False):
        self.s = s
        self.const = const

    def __repr__(self):
        return "Str(%r)" % self.s


class Char:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = ord(c) if isinstance(c, str) else c

    def __eq__(self, o):
        return isinstance(o, Char) and o.c == self.c

    def __hash__(self):
        return hash(("char", self.c))

    def __repr__(self):
        return "Char(%x)" % self.c


class Pair:
    __slots__ = ("car", "cdr", "const")

    def __init__(self, a, d, const=False):
        self.car = a
        self.cdr = d
        self.const = const

    def __repr__(self):
        try:
            return write(self)
        except RecursionError:
            return "<deep>"


class Vec:
    __slots__ = ("v", "const")

    def __init__(self, v, const=False):
        self.v = list(v)
        self.const = const

    def __repr__(self):
        return write(self)


class _Single:
    __slots__ = ("rep",)

    def __init__(self, rep):
        self.rep = rep

    def __repr__(self):
        return self.rep


NIL = _Single("()")
UNDEF = _Single("#<undef>")
EOF = _Single("#<eof>")


class ErrObj:
    __slots__ = ("reason", "objs")

    def __init__(self, reason, objs):
        self.reason, self.objs = reason, objs


def lst(items, tail=NIL):
    r = tail
    for x in reversed(list(items)):
        r = Pair(x, r)
    return r


def unlist(p):
    """Python list of a proper list; ValueError otherwise."""
    r = []
    while isinstance(p, Pair):
        r.append(p.car)
        p = p.cdr
    if p is not NIL:
        raise ValueError("improper")
    return r


def unlist2(p):
    r = []
    while isinstance(p, Pair):
        r.append(p.car)
        p = p.cdr
    return r, p


CHAR_NAMES = [  # order matters when writing
    (0x07, "alarm"), (0x08, "backspace"), (0x09, "tab"), (0x0a, "newline"), (0x0b, "vtab"),
    (0x0c, "page"), (0x0d, "return"), (0x1b, "esc"), (0x20, "space"), (0x7f, "delete"), (0x00, "nul"),
]
CHAR_NAME = dict(CHAR_NAMES)
STR_ESC = {0x22: '\\"', 0x5c: "\\\\", 0x07: "\\a", 0x08: "\\b", 0x09: "\\t", 0x0a: "\\n", 0x0b: "\\v",
           0x0c: "\\f", 0x0d: "\\r", 0x1b: "\\x1b;", 0x7f: "\\x7f;"}


def uchr(c):
    """One character of text; bytes of 8-bit encodings pass as surrogate escapes."""
    return chr(c)


def write_char(c):
    if c in CHAR_NAME:
        return "#\\" + CHAR_NAME[c]
    if c < 0x20 or c == 0x7f:
        return "#\\x%02x" % c
    return "#\\" + uchr(c)


def write_str(s):
    return '"' + "".join(STR_ESC.get(ord(ch), ch) for ch in s) + '"'


def write(x, display=False):
    out = []
    _w(x, out, display)
    return "".join(out)


def _w(x, out, d):
    if x is True:
        out.append("#t")
    elif x is False:
        out.append("#f")
    elif isinstance(x, int):
        out.append(str(x))
    elif isinstance(x, Sym):
        out.append(x.name)
    elif isinstance(x, Str):
        out.append(x.s if d else write_str(x.s))
    elif isinstance(x, Char):
        out.append(uchr(x.c) if d else write_char(x.c))
    elif isinstance(x, Pair):
        out.append("(")
        _w(x.car, out, d)
        x = x.cdr
        while isinstance(x, Pair):
            out.append(" ")
            _w(x.car, out, d)
            x = x.cdr
        if x is not NIL:
            out.append(" . ")
            _w(x, out, d)
        out.append(")")
    elif isinstance(x, Vec):
        out.append("#(")
        for i, e in enumerate(x.v):
            if i:
                out.append(" ")
            _w(e, out, d)
        out.append(")")
    elif isinstance(x, _Single):
        out.append(x.rep)
    elif isinstance(x, ErrObj):
        out.append("#<error>")
    else:
        out.append("#<%s>" % type(x).__name__)


def equal(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    if isinstance(a, int):
        return isinstance(b, int) and a == b
    if isinstance(a, Str):
        return isinstance(b, Str) and a.s == b.s
    if isinstance(a, Char):
        return a == b
    if isinstance(a, Pair):
        while isinstance(a, Pair) and isinstance(b, Pair):
            if not equal(a.car, b.car):
                return False
            a, b = a.cdr, b.cdr
        return not isinstance(a, Pair) and not isinstance(b, Pair) and equal(a, b)
    if isinstance(a, Vec):
        return isinstance(b, Vec) and len(a.v) == len(b.v) and all(equal(x, y) for x, y in zip(a.v, b.v))
    return False


def eqv(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Char) and isinstance(b, Char):
        return a.c == b.c
    return False


class ParseError(Exception):
    pass


_DELIM = set(" \t\n\r\f\v()\";'`,")


def parse_all(text):
    """Program text of my own making (no exotic syntax) -> list of data."""
    toks = _tokens(text)
    r = []
    while True:
        try:
            t = next(toks)
        except StopIteration:
            return r
        r.append(_parse(t, toks))


def parse(text):
    r = parse_all(text)
    if len(r) != 1:
        raise ParseError("%d data in %r" % (len(r), text))
    return r[0]


def _tokens(s):
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c in " \t\n\r\f\v":
            i += 1
        elif c == ";":
            while i < n and s[i] != "\n":
                i += 1
        elif c in "()'`":
            yield c
            i += 1
        elif c == ",":
            if s[i + 1:i + 2] == "@":
                yield ",@"
                i += 2
            else:
                yield ","
                i += 1
        elif c == '"':
            j = i + 1
            buf = []
            while s[j] != '"':
                if s[j] == "\\":
                    j += 1
                    buf.append({"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "v": "\v",
                                "f": "\f"}.get(s[j], s[j]))
                else:
                    buf.append(s[j])
                j += 1
            yield Str("".join(buf), True)
            i = j + 1
        elif c == "#" and s[i + 1] == "(":
            yield "#("
            i += 2
        elif c == "#" and s[i + 1] == "\\":
            j = i + 3
            while j < n and s[j] not in _DELIM:
                j += 1
            name = s[i + 2:j]
            if len(name) == 1:
                yield Char(name)
            else:
                rev = {v: k for k, v in CHAR_NAMES}
                if name in rev:
                    yield Char(rev[name])
                elif name[0] == "x":
                    yield Char(int(name[1:], 16))
                else:
                    raise ParseError(name)
            i = j
        else:
            j = i
            while j < n and s[j] not in _DELIM:
                j += 1
            w = s[i:j]
            i = j
            if w == "#t":
                yield True
            elif w == "#f":
                yield False
            elif w == ".":
                yield "."
            else:
                try:
                    yield int(w)
                except ValueError:
                    yield Sym(w)


_Q = {"'": "quote", "`": "quasiquote", ",": "unquote", ",@": "unquote-splicing"}


def _parse(t, toks):
    if not isinstance(t, str):
        return t
    if t in _Q:
        return lst([Sym(_Q[t]), _parse(next(toks), toks)])
    if t in ("(", "#("):
        items, tail = [], NIL
        while True:
            u = next(toks)
            if isinstance(u, str) and u == ")":
                break
            if isinstance(u, str) and u == ".":
                tail = _parse(next(toks), toks)
                if next(toks) != ")":
                    raise ParseError("after dot")
                break
            items.append(_parse(u, toks))
        return Vec(items, True) if t == "#(" else lst(items, tail)
    raise ParseError("unexpected %r" % t)
