"""N01: integer arithmetic."""
import math
from checks import common

BITS = {"compact": 60, "fatty": 64}
PRE = "(use srfi-23)(use srfi-34)"


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Err(Exception):
    pass


class M:
    """the specification, on Python's integers"""

    def __init__(self, bits):
        self.bits, self.lo, self.hi = bits, -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        self.mid = False

    def fit(self, n):
        if not self.lo <= n <= self.hi:
            raise Err
        return n

    def wrap(self, n):
        n &= (1 << self.bits) - 1
        return n - (1 << self.bits) if n > self.hi else n

    def wrapc(self, n):
        """products are taken modulo the word, then cut to the integer width (documented)"""
        return self.wrap(n)

    def fold(self, f, init, xs):
        a = init
        for x in xs:
            a = self.fit(f(a, x))
        return a

    def call(self, op, a):
        n = len(a)
        if op == "+":
            return self.fold(lambda x, y: x + y, 0, a)
        if op == "-":
            return self.fit(-a[0]) if n == 1 else self.fold(lambda x, y: x - y, a[0], a[1:])
        if op == "*":
            r = 1
            for x in a:
                r = self.wrap(r * x)
            return r
        if op == "/":
            if n == 1:
                a = [1] + a

            def d(x, y):
                if y == 0:
                    raise Err
                return tdiv(x, y)
            return self.fold(d, a[0], a[1:])
        if op in ("quotient", "remainder", "modulo"):
            x, y = a
            if y == 0:
                raise Err
            if op == "quotient":
                return self.fit(tdiv(x, y))
            return x - y * tdiv(x, y) if op == "remainder" else x - y * (x // y)
        if op == "gcd":
            g = 0
            for x in a:
                g = math.gcd(g, x)
            return self.fit(g)
        if op == "lcm":
            g = 1
            for x in a:
                if x and abs(g) > self.hi:
                    raise Err
                g = 0 if 0 in (g, x) else abs(g * x) // math.gcd(g, x)
            return self.fit(g)
        if op == "abs":
            return self.fit(abs(a[0]))
        if op == "max":
            return max(a)
        if op == "min":
            return min(a)
        if op == "expt":
            if a[1] < 0:
                raise Err
            return self.wrap(pow(a[0], a[1], 1 << self.bits))
        f = {"=": lambda x, y: x == y, "<": lambda x, y: x < y, ">": lambda x, y: x > y,
             "<=": lambda x, y: x <= y, ">=": lambda x, y: x >= y}.get(op)
        if f:
            return all(f(x, y) for x, y in zip(a, a[1:]))
        return {"zero?": a[0] == 0, "positive?": a[0] > 0, "negative?": a[0] < 0,
                "odd?": a[0] % 2 == 1, "even?": a[0] % 2 == 0, "number?": True, "integer?": True}[op]


def show(v):
    return "#t" if v is True else "#f" if v is False else str(v)


def pool(m, r):
    c = r.random()
    if c < 0.22:
        return r.choice([0, 1, -1, 2, -2, 3, 7, 10, -10])
    if c < 0.42:
        return r.choice([m.lo, m.lo + 1, m.hi, m.hi - 1, m.lo // 2, m.lo // 2 - 1, m.hi // 2, m.hi // 2 + 1, -m.hi])
    if c < 0.62:
        v = (1 << r.randrange(m.bits - 1)) + r.choice([-1, 0, 1])
        return max(m.lo, min(m.hi, v * r.choice([1, -1])))
    if c < 0.7:
        return max(m.lo, min(m.hi, r.choice([m.lo, m.hi]) // r.randint(1, 9) + r.randint(-2, 2)))
    k = r.randrange(1, m.bits)
    return max(m.lo, min(m.hi, r.choice([1, -1]) * r.getrandbits(k)))


OPS1 = ["abs", "zero?", "positive?", "negative?", "odd?", "even?", "number?", "integer?", "-", "/"]
OPS2 = ["quotient", "remainder", "modulo", "expt", "+", "-", "*", "/", "gcd", "lcm", "max", "min", "=", "<", ">", "<=", ">="]
OPSN = ["+", "-", "*", "/", "gcd", "lcm", "max", "min", "=", "<", ">", "<=", ">="]


def form(r, op, a):
    c = r.random()
    s = [str(x) for x in a]
    if c < 0.6:
        return "(%s)" % " ".join([op] + s)
    if c < 0.72:
        k = r.randint(0, len(s))
        return "(apply %s %s'(%s))" % (op, "".join(x + " " for x in s[:k]), " ".join(s[k:]))
    if c < 0.86:
        vs = ["v%d" % i for i in range(len(s))]
        return "(let (%s) (%s))" % (" ".join("(%s %s)" % z for z in zip(vs, s)), " ".join([op] + vs))
    vs = ["v%d" % i for i in range(len(s))]
    return "((lambda (f %s) (f %s)) %s)" % (" ".join(vs), " ".join(vs), " ".join([op] + s))


def gen(r, n, bits):
    m = M(bits)
    out = []
    while len(out) < n:
        c = r.random()
        if c < 0.15:
            op, a = r.choice(OPS1), [pool(m, r)]
        elif c < 0.75:
            op = r.choice(OPS2)
            a = [pool(m, r), pool(m, r)]
            if op == "expt":
                a[1] = r.choice([0, 1, 2, 3, 5, 10, 30, 59, 60, 63, 64, 100, -1, r.randint(0, 70)])
                a[0] = r.choice([a[0], 2, -2, 3, -3, 10])
            elif op in ("gcd", "lcm") and r.random() < 0.5:
                g = r.getrandbits(r.randint(1, 25)) + 1
                a = [g * r.randint(-40000, 40000), g * r.randint(-40000, 40000)]
            elif op in ("quotient", "remainder", "modulo", "/") and r.random() < 0.4:
                a[1] = r.choice([1, -1, 2, -2, 3, 7, -7, 10, a[0], -a[0] if -a[0] <= m.hi else 5])
        else:
            op = r.choice(OPSN)
            k = r.randint(1 if op in ("max", "min", "-", "/", "+", "*", "gcd", "lcm") else 2, 6)
            if r.random() < 0.1 and op in ("+", "*", "gcd", "lcm"):
                k = 0
            a = [pool(m, r) for _ in range(k)]
            if op in ("<", ">", "<=", ">=", "=") and r.random() < 0.6:
                a.sort(reverse=op[0] == ">")
                if r.random() < 0.4:
                    i = r.randrange(len(a))
                    a[i] = a[i - 1]
        if op in ("max", "min") and not a:
            continue
        if len(a) > 2 and (op == "lcm" and 0 in a or op == "gcd" and math.gcd(a[0], a[1]) > m.hi):
            continue        # likewise
        try:
            w = show(m.call(op, a))
        except Err:
            w = "err"
            if len(a) > 2 and op in ("+", "-") and m.lo <= (sum(a) if op == "+" else 2 * a[0] - sum(a)) <= m.hi:
                continue    # only a partial sum overflows: either outcome is defensible
        out.append((form(r, op, a), w))
    # multi-argument comparisons must look at every pair
    return out


def identities(m, r, n):
    out = []
    for _ in range(n):
        a, b = pool(m, r), pool(m, r)
        if b == 0 or (a == m.lo and b == -1):
            continue
        out.append(("(let ((a %d) (b %d)) (list (= a (+ (* b (quotient a b)) (remainder a b))) (= a (+ (* b (/ a b)) (remainder a b)))"
                    " (let ((d (modulo a b))) (or (zero? d) (eq? (negative? d) (negative? b)))) (odd? (+ 1 (* 2 (remainder a 1000)))) ))" % (a, b),
                    "(#t #t #t #t)"))
    return out


def run(ctx):
    ctx.rule = ("numeric procedures on operands drawn mostly from the ends of the range, powers of two +-1 and random widths, "
                "called directly, through apply, variables and as first-class values; compared with exact integers "
                "(* and expt modulo 2^width, as documented); distinct by expression")
    ctx.assume = ["a variadic sum, product or gcd is computed from left to right: overflow of a partial result is an error"]
    for lay, bits in BITS.items():
        m = M(bits)
        items = common.par(gen, ctx.n(40000, 600000), "%s/%d/%s" % (ctx.prop, ctx.seed, lay), bits)
        common.bulk(ctx, "san-" + lay, items, PRE, "arith-" + lay)
        common.bulk(ctx, "opt-" + lay, items[::3], PRE, "arith-" + lay)
        common.bulk(ctx, "san-" + lay, identities(m, ctx.rng, ctx.n(2000, 40000)), PRE, "identities-" + lay)
        # every op on every pair of special values
        sp = [0, 1, -1, 2, -2, 10, m.lo, m.lo + 1, m.hi, m.hi - 1, m.lo // 2, m.hi // 2, m.hi // 2 + 1, m.lo // 2 - 1, 3, -7]
        items = []
        for op in OPS2:
            for a in sp:
                for b in sp:
                    try:
                        w = show(m.call(op, [a, b]))
                    except Err:
                        w = "err"
                    items.append(("(%s %d %d)" % (op, a, b), w))
        for op in OPS1:
            for a in sp:
                try:
                    w = show(m.call(op, [a]))
                except Err:
                    w = "err"
                items.append(("(%s %d)" % (op, a), w))
        common.bulk(ctx, "san-" + lay, items, PRE, "special-" + lay)
    ctx.minimum = 50000
