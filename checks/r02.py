"""R02: the reader builds exactly the datum the text denotes."""
from checks import common
from checks.n01 import BITS
from checks.r01 import PRE as P1
from vlib import codec, dgen, rmodel

PRE = P1 + r"""
(define (rdall p)
  (let loop ((r '()))
    (let ((x (guard (e ((%%error-object? e) (list 'vf-err))) (list 'ok (read p)))))
      (cond ((eq? (car x) 'vf-err) (reverse (cons 'err r)))
            ((eof-object? (cadr x)) (reverse (cons (if (eof-object? (read p)) 'eof 'eof-unstable) r)))
            (else (loop (cons (cadr x) r)))))))
(define (same got want) (if (deq got want) #t (list 'got (guard (e (#t 'unwritable)) (wr got)))))
(define (chk t . want) (same (rdall (open-input-string t)) want))
(define (chkf t . want)
  (call-with-output-file "f" (lambda (p) (display t p)))
  (same (call-with-input-file "f" rdall) want))
"""
ATOMS = ["a", "b1", "foo", "+", "-", "...", "->x", "1", "-5", "+7", "007", "#t", "#f", "#\\a", "#\\space", "#\\x41", "#\\(", "#\\;", "\"s\"",
         "\"a\\nb\"", "\"\\x41;\"", "\"\"", "#xff", "#b-101", "#o17", "#d9", "#b2", "#xg", "#e1", "#\\foo", "#\\x", "#\\xd800", "#\\x110000",
         "\"\\q\"", "\"\\x41\"", "\"\\xg;\"", "1a", "-a", "1+", "..", ".5", "5.", "@a", "a@b", "|a|", "[", "]", "{", "}", "\\", "#|x|#", "#;", "#", "\x01",
         "\x7f", "99999999999999999999", "-99999999999999999999", "576460752303423487", "576460752303423488", "9223372036854775807",
         "9223372036854775808", "-9223372036854775808", "-576460752303423488", "-576460752303423489", "\"a;b\"", "'", "`", ",", ",@", "quote", "λ", "あ",
         "#\\あ", "\"あ\"", "#\\あx", "A", "FooBar", "#\\A", "#\\NEWLINE", "#\\Space", "#\\linefeed", "#\\delete", "#\\nul", "#\\esc", "#\\vtab", "....", "......",
         "......x", "#T", "#X1", "#(1", "#()", "#(1 . 2)", "#(a . (b))", "a'b", "a\"b\"", "a(b)", "\"a\"\"b\"", "'a", "`(a ,b ,@c)", ",@a", ", @a", "' a", "'()",
         "'#(1)", "#\\)", "#\\'", "#\\\"", "#\\\\", "#\\ ", "\"\\\\\"", "\"\\\"\"", "\"\\a\\b\\t\\n\\v\\f\\r\"", "\"\\0\"", "\"\\X41;\"", "\"\\x0;\"", "\"\\x110000;\""]
PUNCT = ["(", "(", "(", ")", ")", ")", "(", ")", " . ", " ", "#(", ".", " .", ". ", ";c\n", "\n", ";", "'", "`", ",", ",@", "\t", "\f", "\r", "\""]


def esc(cs):
    return "".join(map(chr, cs))


def tlit(r, cs):
    if 0 in cs:
        return None
    if r.random() < 0.3 or any(c < 32 and c not in (9, 10, 12) for c in cs):
        return "(list->string (map integer->char '(%s)))" % " ".join(map(str, cs)) if cs else '""'
    return '"%s"' % esc(cs).replace("\\", "\\\\").replace('"', '\\"')


def soup(r):
    out = ""
    for _ in range(r.randint(1, 14)):
        c = r.random()
        if c < 0.5:
            out += r.choice(PUNCT)
        else:
            out += r.choice(ATOMS)
        if r.random() < 0.6:
            out += " "
    return [ord(c) for c in out]


def mutate(r, cs):
    cs = list(cs)
    for _ in range(r.choice([1, 1, 2, 3])):
        if not cs:
            break
        i = r.randrange(len(cs))
        c = r.random()
        if c < 0.35:
            del cs[i]
        elif c < 0.6:
            cs[i] = r.choice([40, 41, 46, 34, 35, 32, 39, 59, 92, r.randrange(1, 128), 0x3042])
        elif c < 0.85:
            cs.insert(i, r.choice([40, 41, 46, 34, 35, 32, 39, 59, 92, 120, 10, r.randrange(1, 128), 0xe9]))
        else:
            del cs[i:]
    return cs


def judged(r, cs, bits, fn="chk"):
    try:
        want = rmodel.read_all(cs, bits)
    except rmodel.Unsure:
        return None
    if want and want[-1] == "err" and False:
        return None
    t = tlit(r, cs)
    if t is None:
        return None
    e = "(%s %s %s '%s)" % (fn, t, " ".join(dgen.expr(x) for x in want[:-1]), want[-1])
    return e if len(e) < 5000 else None


def gen(r, n, bits):
    g = dgen.G(r, codec.GEN["UTF-8"], bits)
    out = []
    while len(out) < n:
        c = r.random()
        fn = "chkf" if r.random() < 0.1 else "chk"
        if c < 0.5:
            ds = [g.datum(r.choice([0, 1, 2, 3])) for _ in range(r.choice([1, 1, 2, 4]))]
            cs = []
            for d in ds:
                cs += dgen.o(dgen.space(r, 1)) + dgen.text(r, d)
            cs += dgen.o(dgen.space(r, 0))
            t = tlit(r, cs)
            if t is None:
                continue
            e = "(%s %s %s 'eof)" % (fn, t, " ".join(map(dgen.expr, ds)))
            if len(e) > 5000:
                continue
            # the model must agree with the generator
            try:
                w = rmodel.read_all(cs, bits)
                assert w == ds + ["eof"], (esc(cs), ds, w)
            except rmodel.Unsure:
                pass
        elif c < 0.75:
            e = judged(r, soup(r), bits, fn)
        else:
            d = g.datum(r.choice([1, 2, 3]))
            e = judged(r, mutate(r, dgen.text(r, d)), bits, fn)
        if e is None:
            continue
        out.append((e, "#t"))
    return out


def atoms(r, bits):
    out = []
    for a in ATOMS:
        for pre in ("", " ", "(", "'", "#(", "(x . ", ";c\n", "1 ", "\"\" "):
            for post in ("", " ", ")", "(", " 5", ";", "\"s\"", "'q", " )", " . 1)"):
                e = judged(r, [ord(c) for c in pre + a + post], bits)
                if e:
                    out.append((e, "#t"))
    for c in list(range(1, 256)) + [0x3000, 0x3042, 0xffff, 0x10ffff, 0x2028]:
        for t in ("%s", "#\\%s", "#\\%s ", "\"%s\"", "\"\\%s\"", "a%s", "a%sb", "1%s", "1%s2", "-%s", ".%s", "#%s", "#%s1", "#x%s", "(a %s b)", "(a .%s b)", "\"\\x4%s;\"",
                  "#\\x4%s", "'%s", ",%s a", "#\\a%s", "%s1", "%s%s"):
            s = t.replace("%s", chr(c))
            e = judged(r, [ord(x) for x in s], bits)
            if e:
                out.append((e, "#t"))
    return out


def run(ctx):
    ctx.rule = ("texts generated from data with free use of the lexical syntax, soups of tokens and mutated texts, read datum by datum to "
                "the end or the first error; judged by a reader written from the language report; distinct by text")
    ctx.assume = ["where the report leaves the end of a token open ('#' or '|' inside a token, numerals longer than the widest integer) the text is not judged"]
    for lay, bits in BITS.items():
        items = common.par(gen, ctx.n(14000, 300000), "%s/%d/%s" % (ctx.prop, ctx.seed, lay), bits)
        common.bulk(ctx, "san-" + lay, items, PRE, "text-" + lay, per=12)
        common.bulk(ctx, "opt-" + lay, items[::3], PRE, "text-" + lay, per=12)
        a = atoms(ctx.rng, bits)
        if not ctx.thorough:
            a = a[::2] if ctx.seed % 2 else a[1::2]
        common.bulk(ctx, "san-" + lay, a, PRE, "atoms-" + lay)
    ctx.minimum = 20000
