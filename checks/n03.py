"""N03: bitwise operations on two's-complement integers."""
from checks import common
from checks.n01 import BITS, M, form, pool, show

PRE = "(use srfi-23)(use srfi-34)(use srfi-60)"
ALIAS = {"logand": ["logand", "bitwise-and"], "logior": ["logior", "bitwise-ior"], "logxor": ["logxor", "bitwise-xor"],
         "lognot": ["lognot", "bitwise-not"], "bitwise-if": ["bitwise-if", "bitwise-merge"],
         "logtest": ["logtest", "any-bits-set?"]}


def model(op, a):
    if op in ("logand", "logior", "logxor"):
        v = -1 if op == "logand" else 0
        for x in a:
            v = v & x if op == "logand" else v | x if op == "logior" else v ^ x
        return v
    if op == "lognot":
        return ~a[0]
    if op == "bitwise-if":
        return (a[0] & a[1]) | (~a[0] & a[2])
    return (a[0] & a[1]) != 0


def operand(m, r):
    c = r.random()
    if c < 0.25:
        return r.choice([1, -1]) * (1 << r.randrange(m.bits - 1))
    if c < 0.4:
        return m.lo + (r.getrandbits(m.bits) & ((1 << (m.bits - 1)) - 1)) if r.random() < 0.5 else r.getrandbits(m.bits - 1)
    if c < 0.5:
        a = r.randrange(m.bits - 1)
        b = r.randrange(a + 1)
        v = (1 << a) - (1 << b)
        return r.choice([v, ~v])
    return pool(m, r)


def gen(r, n, bits):
    m = M(bits)
    out = []
    while len(out) < n:
        op = r.choice(list(ALIAS))
        k = {"lognot": 1, "bitwise-if": 3, "logtest": 2}.get(op)
        if k is None:
            k = r.choice([0, 1, 2, 2, 2, 3, 3, 4, 5, 7])
        a = [operand(m, r) for _ in range(k)]
        if r.random() < 0.15 and k:
            a = [r.choice(a + [~x for x in a]) for _ in a]
        name = r.choice(ALIAS[op])
        if r.random() < 0.04 and k:
            i = r.randrange(k)
            bad = list(a)
            bad[i] = r.choice(["'a", '"1"', "#\\a", "#f", "'()", "'(1)", "car"])
            out.append(("(%s %s)" % (name, " ".join(map(str, bad))), "err"))
        else:
            out.append((form(r, name, a), show(model(op, a))))
    return out


def sweep(m):
    sp = [0, 1, -1, 2, -2, 3, 5, -6, 10, m.lo, m.lo + 1, m.hi, m.hi - 1, 1 << 31, (1 << 32) - 1, 1 << 32, -(1 << 31), -(1 << 32), 0x5555555555555555 & m.hi,
          ~(0x5555555555555555 & m.hi)]
    out = []
    for op in ALIAS:
        for name in ALIAS[op]:
            for a in sp:
                if op == "lognot":
                    out.append(("(%s %d)" % (name, a), show(model(op, [a]))))
                    continue
                for b in sp:
                    if op == "bitwise-if":
                        for c in sp[::3]:
                            out.append(("(%s %d %d %d)" % (name, a, b, c), show(model(op, [a, b, c]))))
                    else:
                        out.append(("(%s %d %d)" % (name, a, b), show(model(op, [a, b]))))
    for a in range(-9, 10):
        for b in range(-9, 10):
            for op in ("logand", "logior", "logxor", "logtest"):
                out.append(("(%s %d %d)" % (op, a, b), show(model(op, [a, b]))))
    for name in sum(ALIAS.values(), []):
        n = {"lognot": 1, "bitwise-not": 1, "bitwise-if": 3, "bitwise-merge": 3, "logtest": 2, "any-bits-set?": 2}.get(name)
        if n:
            for k in range(0, 6):
                if k != n:
                    out.append(("(%s%s)" % (name, " 1" * k), "err"))
        for bad in ("'a", '"1"', "#\\a", "#f", "'()", "'(1)", "car", "(if #f #f)", "'#(1)"):
            for i in range(n or 2):
                a = ["1"] * (n or 2)
                a[i] = bad
                out.append(("(%s %s)" % (name, " ".join(a)), "err"))
    return out


def run(ctx):
    ctx.rule = ("every bitwise procedure and its alias on operands with single bits, bit runs, range ends and random widths; "
                "the oracle is Python's unbounded two's-complement integers; distinct by expression")
    for lay, bits in BITS.items():
        m = M(bits)
        items = common.par(gen, ctx.n(30000, 500000), "%s/%d/%s" % (ctx.prop, ctx.seed, lay), bits)
        common.bulk(ctx, "san-" + lay, items, PRE, "random-" + lay)
        common.bulk(ctx, "opt-" + lay, items[::4], PRE, "random-" + lay)
        common.bulk(ctx, "san-" + lay, sweep(m), PRE, "sweep-" + lay)
    ctx.minimum = 40000
