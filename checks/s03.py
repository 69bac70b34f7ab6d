"""S03: character and string predicates, case mapping, ordering."""
from checks import common
from vlib import codec

PRE = r"""(use srfi-23)(use srfi-34)
(define ch integer->char)
(define (st l) (list->string (map ch l)))
(define (b x) (cond ((eq? x #t) 1) ((eq? x #f) 0) (else x)))
(define (cls n) (let ((c (ch n)))
  (list (b (char? c)) (b (char-alphabetic? c)) (b (char-numeric? c)) (b (char-whitespace? c)) (b (char-upper-case? c)) (b (char-lower-case? c))
        (char->integer (char-upcase c)) (char->integer (char-downcase c)) (char->integer c))))
(define cps (list char=? char<? char>? char<=? char>=? char-ci=? char-ci<? char-ci>? char-ci<=? char-ci>=?))
(define sps (list string=? string<? string>? string<=? string>=? string-ci=? string-ci<? string-ci>? string-ci<=? string-ci>=?))
(define (cc x y) (map (lambda (f) (b (f (ch x) (ch y)))) cps))
(define (cs x y) (map (lambda (f) (b (f (st x) (st y)))) sps))
(define (same x) (let ((s (st x))) (map (lambda (f) (b (f s s))) sps)))
(define (copies x) (let* ((s (st x)) (t (string-copy s)) (u (substring (string-append "x" s) 1 (+ 1 (string-length s))))) (append (cs2 s t) (cs2 t u))))
(define (cs2 s t) (map (lambda (f) (b (f s t))) sps))
(define (tot x y) (let* ((p (ch x)) (q (ch y)) (l (map b (list (char=? p q) (eqv? p q) (equal? p q) (memv p (list q)) (string=? (string p) (string q)))))) (map (lambda (z) (if (pair? z) 1 z)) l)))
"""


def down(c):
    return c + 32 if 65 <= c <= 90 else c


def cmp5(a, b):
    return [int(a == b), int(a < b), int(a > b), int(a <= b), int(a >= b)]


def L(x):
    return "(%s)" % " ".join(map(str, x))


def cls(n):
    up, lo = 65 <= n <= 90, 97 <= n <= 122
    return L([1, int(up or lo), int(48 <= n <= 57), int(n == 32 or 9 <= n <= 13), int(up), int(lo), n - 32 if lo else n, n + 32 if up else n, n])


def char(r, name):
    c = r.random()
    if c < 0.35:
        return r.choice([65, 90, 97, 122, 64, 91, 96, 123, 0x5f, 48, 57, 47, 58, 32, 9, 13, 127, 1, 31, r.randrange(65, 91), r.randrange(97, 123)])
    return codec.GEN[name](r)


def pairs(r, n, name):
    out = []
    for _ in range(n):
        a = char(r, name)
        b = r.choice([a, char(r, name), char(r, name), char(r, name), a ^ 32, a + 1, a - 1])
        if not codec.valid(name, b):
            b = a
        out.append(("(cc %d %d)" % (a, b), L(cmp5(a, b) + cmp5(down(a), down(b)))))
        if r.random() < 0.3 and a and b:
            out.append(("(tot %d %d)" % (a, b), L([int(a == b)] * 5)))
    return out


def strings(r, n, name):
    out = []
    while len(out) < n:
        a = [char(r, name) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9, r.randrange(30)]))]
        b = list(a)
        k = r.random()
        if k < 0.35 and b:
            i = r.randrange(len(b))
            b[i] = r.choice([char(r, name), b[i] ^ 32, b[i] + 1])
        elif k < 0.5:
            b = b[:r.randrange(len(b) + 1)]
        elif k < 0.62:
            b = b + [char(r, name) for _ in range(r.randrange(1, 4))]
        elif k < 0.8:
            b = [x ^ 32 if (65 <= x <= 90 or 97 <= x <= 122) and r.random() < 0.5 else x for x in b]
            if r.random() < 0.4 and b:
                i = r.randrange(len(b))
                b[i] = char(r, name)
        elif k < 0.9:
            b = [char(r, name) for _ in range(r.randrange(6))]
        if r.random() < 0.5:
            a, b = b, a
        if not all(x and codec.valid(name, x) for x in a + b):
            continue
        out.append(("(cs '%s '%s)" % (L(a), L(b)), L(cmp5(a, b) + cmp5(list(map(down, a)), list(map(down, b))))))
        if r.random() < 0.1:
            out.append(("(copies '%s)" % L(a), L([1, 0, 0, 1, 1] * 4)))
            out.append(("(same '%s)" % L(a), L([1, 0, 0, 1, 1] * 2)))
    return out


def sweep(name, step):
    top = 0x110000 if name == "UTF-8" else 0x100 if name == "ISO-8859-1" else 0x10000
    out = []
    cand = list(range(0x400)) + list(range(0x400, top, step)) if top > 0x400 else list(range(top))
    loose = lambda c: (c & 0xff in (0xa0, 0xff) or (c >> 8) in (0x8e, 0xa0, 0xff) or c in (0x80, 0xa0, 0xfd, 0xfe, 0xff) or (c >> 8) in (0x80, 0xa0, 0xfd, 0xfe, 0xff)) and name not in ("UTF-8", "ISO-8859-1")
    for i in range(0, len(cand), 16):
        v = [c for c in cand[i:i + 16] if codec.valid(name, c) and not loose(c)]
        if v:
            out.append(("(map cls '%s)" % L(v), "(%s)" % " ".join(map(cls, v))))
    return out


def wrap(name, items):
    return items if name == "UTF-8" else [('(begin (%%%%set-current-char-codec! "%s") %s)' % (name, e), w) for e, w in items]


BASIC = [("(char->integer #\\a)", "97"), ("(integer->char 97)", "#\\a"), ("(integer->char -1)", "err"), ("(integer->char 1114112)", "err"),
         ("(integer->char 55296)", "err"), ("(integer->char 57343)", "err"), ("(char->integer (integer->char 57344))", "57344"),
         ("(char->integer (integer->char 1114111))", "1114111"), ("(char->integer (integer->char 0))", "0"),
         ("(integer->char 4294967361)", "err"), ("(integer->char -4294967231)", "err"), ("(char<? #\\a 1)", "err"), ("(char=? 1 #\\a)", "err"), ("(char-upcase 97)", "err"),
         ("(char-upcase \"a\")", "err"), ("(string<? \"a\" #\\a)", "err"), ("(string=? 'a \"a\")", "err"), ("(char->integer 1)", "err"), ("(integer->char #\\a)", "err"),
         ("(char-alphabetic? 65)", "err"), ("(char-numeric? \"1\")", "err"), ("(char-whitespace? 32)", "err"), ("(char-upper-case? 65)", "err"), ("(char-lower-case? 'a)", "err"),
         ("(char? 65)", "#f"), ("(char? \"a\")", "#f"), ("(char? 'a)", "#f"), ("(char? #\\a)", "#t"), ("(char? #\\x0)", "#t")]


def alphabet(ctx):
    """every pair of the characters around the case and class boundaries"""
    cs = list(range(0, 129)) + [0xc0, 0xe0, 0xff, 0x100, 0x391, 0x3b1, 0x3042, 0xff21, 0xff41, 0x10400, 0x10428, 0x10ffff]
    out = []
    for a in cs:
        for i in range(0, len(cs), 24):
            k = cs[i:i + 24]
            out.append(("(map (lambda (y) (cc %d y)) '%s)" % (a, L(k)), "(%s)" % " ".join(L(cmp5(a, b) + cmp5(down(a), down(b))) for b in k)))
    return out


def run(ctx):
    ctx.rule = ("every pair of the first 129 characters and samples beyond under all ten character comparisons; classification, case mapping and integer "
                "conversion over a sweep of code values per codec; random string pairs (equal, prefix, one character or only case differing) under all ten string comparisons")
    ctx.assume = ["classification and case mapping are those of the ASCII range (documented)"]
    both = ("compact", "fatty")
    for k, lay in enumerate(both):
        common.bulk(ctx, "san-" + lay, BASIC, PRE, "basic-" + lay, per=40)
        common.bulk(ctx, "opt-" + lay, alphabet(ctx), PRE, "pairs-" + lay, per=4)
        items = common.par(strings, ctx.n(3000, 80000), "%s/%d/%d" % (ctx.prop, ctx.seed, k), "UTF-8")
        common.bulk(ctx, "san-" + lay, items, PRE, "string-" + lay)
        common.bulk(ctx, "opt-" + lay, items, PRE, "string-opt-" + lay)
        common.bulk(ctx, "san-" + lay, common.par(pairs, ctx.n(2000, 60000), "%s/%d/p%d" % (ctx.prop, ctx.seed, k), "UTF-8"), PRE, "pair-" + lay)
        common.bulk(ctx, "opt-" + lay, sweep("UTF-8", ctx.n(67, 1)), PRE, "sweep-" + lay, per=4)
    for k, name in enumerate(codec.NAMES[1:]):
        lay = both[(k + ctx.seed) % 2]
        items = strings(ctx.rng, ctx.n(400, 8000), name) + pairs(ctx.rng, ctx.n(300, 5000), name) + sweep(name, ctx.n(97, 1))
        common.bulk(ctx, "san-" + lay, wrap(name, items), PRE, "other-" + name, per=6)
    ctx.minimum = 10000
