"""N02: numbers and their text."""
import re
from checks import common
from checks.n01 import BITS, M, pool

PRE = "(use srfi-6)(use srfi-23)(use srfi-34)"
DIG = "0123456789abcdef"
RAD = {2: "b", 8: "o", 10: "d", 16: "x"}


def text(n, r):
    if n == 0:
        return "0"
    s, a = "", abs(n)
    while a:
        s = DIG[a % r] + s
        a //= r
    return "-" + s if n < 0 else s


def value(m, s, r):
    """the integer, or None when it is not a numeral of the radix in range"""
    if not re.fullmatch("[+-]?[%s]+" % DIG[:r], s.lower()):
        return None
    n = int(s, r)
    return n if m.lo <= n <= m.hi else None


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def num(m, r):
    c = r.random()
    if c < 0.5:
        return pool(m, r)
    if c < 0.7:
        b = r.choice([2, 8, 10, 16])
        k = r.randrange(1, 22)
        n = b ** k + r.choice([-1, 0, 1])
        return n * r.choice([1, -1])
    return r.choice([m.hi, m.lo]) + r.randint(-3, 3) * r.choice([1, 1, 1 << 40])


def numeral(m, r):
    """(text, radix): mostly numerals, sometimes spoiled"""
    b = r.choice([2, 8, 10, 10, 16, 16])
    n = num(m, r)
    s = text(n, b)
    c = r.random()
    if c < 0.15:
        s = ("-" if s[0] == "-" else r.choice(["", "+"])) + "0" * r.randint(0, 3) + s.lstrip("-")
    elif c < 0.25 and s[0] != "-":
        s = "+" + s
    elif c < 0.4:
        i = r.randint(0, len(s))
        s = s[:i] + r.choice(["x", "0", "1", "9", "g", " ", ".", "+", "-", "a", "F", "8", "2", "/", "_", "e", "0x", "~"]) + s[i:]
    elif c < 0.47:
        s = s * r.randint(2, 4)
    elif c < 0.5:
        s = r.choice(["", "+", "-", "+-1", "- 1", "#", "1#", "#t", "0b1", "0x1", "1e2", "1.", ".1", "é", "1\u0661"])
    if r.random() < 0.3:
        s = s.upper()
    return s, b


def gen(r, n, bits):
    m = M(bits)
    out = []
    while len(out) < n:
        c = r.random()
        if c < 0.3:
            v = num(m, r)
            if not m.lo <= v <= m.hi:
                continue
            b = r.choice(list(RAD))
            t = text(v, b)
            k = r.random()
            if k < 0.4:
                out.append(("(number->string %d %d)" % (v, b), q(t)))
            elif k < 0.5:
                out.append(("(number->string %d)" % v, q(str(v))))
            elif k < 0.6:
                out.append(("(let ((p (open-output-string))) (display %d p) (get-output-string p))" % v, q(str(v))))
            elif k < 0.7:
                out.append(("(let ((p (open-output-string))) (write (list %d 'x) p) (get-output-string p))" % v, q("(%d x)" % v)))
            elif k < 0.9:
                out.append(("(let ((n %d)) (= n (string->number (number->string n %d) %d)))" % (v, b, b), "#t"))
            else:
                out.append(("(let* ((s (number->string %d %d)) (u (number->string 5 %d))) (list (string-set! s 0 #\\z) (substring s 0 1) (number->string %d %d)))"
                            % (v, b, b, v, b), None))
                e, _ = out.pop()
                out.append(("(let ((s (number->string %d %d))) (string-set! s 0 #\\z) (list (string-ref s 0) (number->string %d %d)))"
                            % (v, b, v, b), "(#\\z %s)" % q(t)))
        elif c < 0.65:
            s, b = numeral(m, r)
            v = value(m, s, b)
            w = "#f" if v is None else str(v)
            if b == 10 and r.random() < 0.5:
                out.append(("(string->number %s)" % q(s), w))
            else:
                out.append(("(string->number %s %d)" % (q(s), b), w))
        else:
            # through the reader
            s, b = numeral(m, r)
            if re.search(r"[^0-9a-zA-Z+-]", s):
                continue
            v = value(m, s, b)
            if v is not None and len(s) > len(text(m.lo, b)):
                continue        # the reader limits the length of a literal
            tail = r.choice(["", "", " ", ")", "(", "\\\"", ";c", "\\n5", "\\t"])
            if s == "":
                continue
            if b == 10 and r.random() < 0.6:
                if s in ("+", "-"):
                    continue
                lit = s
                if not re.match(r"[0-9+-]", s):
                    continue
            else:
                lit = "#" + RAD[b] + s
            out.append(('(read (open-input-string "%s%s"))' % (lit, tail), "err" if v is None else str(v)))
    return out


def sweep(m):
    out = []
    for b in RAD:
        for n in list(range(-300, 301)) + [m.lo, m.hi, m.lo + 1, m.hi - 1, m.lo - 1, m.hi + 1, 1 << 31, 1 << 32, -(1 << 31), (1 << 32) - 1,
                                           -(1 << 32), (1 << 63), -(1 << 63), (1 << 64), (1 << 63) - 1, (1 << 64) + 1, 1 << 65, 10 ** 18, 10 ** 19]:
            t = text(n, b)
            ok = m.lo <= n <= m.hi
            if ok:
                out.append(("(number->string %d %d)" % (n, b), q(t)))
            out.append(("(string->number %s %d)" % (q(t), b), str(n) if ok else "#f"))
            out.append(("(read (open-input-string %s))" % q("#" + RAD[b] + t), str(n) if ok else "err"))
    for b in list(range(-20, 40)) + [1 << 32, (1 << 32) + 10, (1 << 32) + 16, m.hi, m.lo, 256 + 10, 65536 + 16]:
        if b not in RAD:
            # 3 and friends are not supported radices
            out.append(("(number->string 5 %d)" % b, "err"))
            out.append(('(string->number "5" %d)' % b, "err"))
    # every single character as a digit
    for b in RAD:
        for c in range(32, 127):
            if chr(c) in '"\\':
                continue
            v = value(m, chr(c), b)
            out.append(("(string->number %s %d)" % (q(chr(c)), b), "#f" if v is None else str(v)))
            v = value(m, "1" + chr(c), b)
            out.append(("(string->number %s %d)" % (q("1" + chr(c)), b), "#f" if v is None else str(v)))
            out.append(("(string->number %s %d)" % (q(chr(c) + "1"), b),
                        "#f" if value(m, chr(c) + "1", b) is None else str(value(m, chr(c) + "1", b))))
    return out


def run(ctx):
    ctx.rule = ("integers at and around the ends of the range, powers of the radix and random widths, written in every radix and read "
                "back by string->number and the reader; spoiled numerals; distinct by expression")
    for lay, bits in BITS.items():
        m = M(bits)
        items = common.par(gen, ctx.n(40000, 600000), "%s/%d/%s" % (ctx.prop, ctx.seed, lay), bits)
        common.bulk(ctx, "san-" + lay, items, PRE, "random-" + lay)
        common.bulk(ctx, "opt-" + lay, items[::4], PRE, "random-" + lay)
        common.bulk(ctx, "san-" + lay, sweep(m), PRE, "sweep-" + lay)
    ctx.minimum = 40000
