"""A reader of the interpreter's lexical syntax, for judging arbitrary text.

read_all(codes) -> list of data followed by "eof" or "err"; Unsure when the text touches a corner that
neither the report nor the documentation settles."""
from .dgen import SYM1, o

WS = {9, 10, 11, 12, 13, 32}
DELIM = WS | set(range(0, 32)) | {92, 127} | set(o("()#'`,\"|{}[];"))
NAMES = {"space": 32, "newline": 10, "linefeed": 10, "nul": 0, "alarm": 7, "backspace": 8, "tab": 9, "vtab": 11,
         "page": 12, "return": 13, "esc": 27, "delete": 127, "\\": 92, "\"": 34}
SE = {ord("n"): 10, ord("t"): 9, ord("r"): 13, ord("a"): 7, ord("b"): 8, ord("v"): 11, ord("f"): 12, 34: 34, 92: 92}
INIT = set(o(SYM1))


class Err(Exception):
    pass


class Unsure(Exception):
    pass


class Reader:
    def __init__(self, codes, bits=60):
        self.t, self.i = list(codes), 0
        self.lo, self.hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def get(self):
        c = self.peek()
        self.i += 1
        return c

    def skip(self):
        while True:
            c = self.peek()
            if c == 59:
                while self.peek() not in (None, 10, 13):
                    self.i += 1
            elif c in WS:
                self.i += 1
            else:
                return c

    def token(self):
        s = []
        while True:
            c = self.peek()
            if s and (c is None or c in DELIM):
                if c in (35, 92, 124, 91, 93, 123, 125) or c is not None and c < 32 and c not in WS or c == 127:
                    raise Unsure    # not a delimiter of the report
                return s
            if c is None:
                raise Err
            s.append(c)
            self.i += 1

    def number(self, s, radix):
        try:
            w = "".join(map(chr, s)).lower()
        except ValueError:
            raise Err
        body = w[1:] if w[:1] in ("+", "-") else w
        if not body or any(c not in "0123456789abcdef"[:radix] for c in body):
            raise Err
        n = int(w, radix)
        if not self.lo <= n <= self.hi:
            raise Err
        if len(w) > 55:
            raise Unsure
        return n

    def one(self):
        """a datum, or None at the end"""
        c = self.skip()
        if c is None:
            return None
        if c in INIT or c >= 128:
            return ("y", self.token())
        if 48 <= c <= 57:
            return self.number(self.token(), 10)
        if c in (43, 45):
            s = self.token()
            return ("y", s) if len(s) == 1 else self.number(s, 10)
        if c == 46:
            s = self.token()
            if s == [46] * 3:
                return ("y", s)
            raise Err
        if c == 64:
            raise Err
        self.i += 1
        if c == 40:
            return self.list()
        if c == 34:
            return self.string()
        if c == 39:
            return self.quoted("quote")
        if c == 96:
            return self.quoted("quasiquote")
        if c == 44:
            if self.peek() is None:
                raise Err
            if self.peek() == 64:
                self.i += 1
                return self.quoted("unquote-splicing")
            return self.quoted("unquote")
        if c == 35:
            d = self.get()
            if d == 116:
                return True
            if d == 102:
                return False
            if d == 40:
                x = self.list()
                if x == ():
                    return ("v", [])
                if x[0] == "p" and x[2] == ():
                    return ("v", x[1])
                raise Err
            if d == 92:
                return self.char()
            if d is not None and d < 128 and chr(d) in "bodx":
                if self.peek() is not None and self.peek() in DELIM:
                    raise Err
                return self.number(self.token(), {"b": 2, "o": 8, "d": 10, "x": 16}[chr(d)])
            raise Err
        raise Err

    def quoted(self, name):
        x = self.one()
        if x is None:
            raise Err
        return ("p", [("y", o(name)), x], ())

    def list(self):
        items = []
        while True:
            c = self.skip()
            if c is None:
                raise Err
            if c == 41:
                self.i += 1
                if not items:
                    return ()
                return ("p", items, ())
            if c == 46:
                s = self.token()
                if s == [46] * 3:
                    items.append(("y", s))
                    continue
                if s != [46]:
                    raise Err
                if self.peek() is None or self.peek() not in WS:
                    raise Err
                if not items:
                    raise Err
                x = self.one()
                if x is None:
                    raise Err
                if self.skip() != 41:
                    raise Err
                self.i += 1
                if isinstance(x, tuple) and x and x[0] == "p":
                    return ("p", items + x[1], x[2])
                return ("p", items, x)
            items.append(self.one())

    def char(self):
        c = self.get()
        if c is None:
            raise Err
        n = self.peek()
        if n is None or n in DELIM:
            if n is not None and n not in WS and n not in (40, 41, 34, 59, 39, 96, 44):
                raise Unsure
            return ("c", c)
        if c >= 128:
            raise Err
        if c in DELIM and c != 92 and c != 34:
            raise Unsure        # #\(a : a character and a symbol, or an error
        s = self.token()
        if any(x >= 128 for x in s):
            raise Err
        w = chr(c) + "".join(map(chr, s))
        if w[0] == "x" and all(x in "0123456789abcdefABCDEF" for x in w[1:]):
            if len(w) > 7:
                raise Unsure
            n = int(w[1:], 16)
            if n > 0x10ffff or 0xd800 <= n < 0xe000:
                raise Err
            return ("c", n)
        if w.lower() in NAMES:
            return ("c", NAMES[w.lower()])
        raise Err

    def string(self):
        out = []
        while True:
            c = self.get()
            if c is None:
                raise Err
            if c == 34:
                return ("s", out)
            if c == 92:
                c = self.get()
                if c == 120:
                    s = []
                    if self.peek() is None:
                        raise Err
                    while self.peek() is not None and self.peek() != 59 and len(s) < 20:
                        s.append(self.get())
                    if self.get() != 59:
                        raise Err
                    w = "".join(map(chr, s))
                    if not w or any(x not in "0123456789abcdefABCDEF" for x in w):
                        raise Err
                    n = int(w, 16)
                    if n > 0x10ffff or 0xd800 <= n < 0xe000 or n == 0:
                        raise Err
                    if len(w) > 6:
                        raise Unsure
                    out.append(n)
                elif c in SE:
                    out.append(SE[c])
                else:
                    raise Err
            else:
                if c == 0:
                    raise Err
                out.append(c)


def read_all(codes, bits=60):
    r = Reader(codes, bits)
    out = []
    while True:
        try:
            x = r.one()
        except Err:
            return out + ["err"]
        if x is None:
            return out + ["eof"]
        out.append(x)
