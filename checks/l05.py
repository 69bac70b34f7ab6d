"""L05: format (SRFI-28), format (SRFI-48) and format+ against a model of the directives."""
from checks import common
from vlib.check import Case

PRE28 = "(use srfi-6)(use srfi-34)(use srfi-38)(use srfi-28)\n(define f format)\n"
PRE48 = "(use srfi-6)(use srfi-34)(use srfi-38)(use srfi-48)\n(define f format)\n(define (C l) (let loop ((p l)) (if (null? (cdr p)) (begin (set-cdr! p l) l) (loop (cdr p)))))\n"
PREP = PRE48 + "(define f format+)\n"

# expression, written, displayed, shared-written
ANY = [("1", "1", "1"), ("-42", "-42", "-42"), ("'abc", "abc", "abc"), ('"x y"', '"x y"', "x y"), ('"q\\"b\\\\"', '"q\\"b\\\\"', 'q"b\\'), ("#\\a", "#\\a", "a"), ("#\\space", "#\\space", " "),
       ("'()", "()", "()"), ("#t", "#t", "#t"), ("#f", "#f", "#f"), ("'(1 \"two\" #\\3)", '(1 "two" #\\3)', "(1 two 3)"), ("(vector 1 \"b\" 'c)", '#(1 "b" c)', "#(1 b c)"), ('""', '""', ""),
       ("'(a . b)", "(a . b)", "(a . b)"), ('"日本~a"', '"日本~a"', "日本~a"), ("#\\é", "#\\é", "é"), ("''x", "(quote x)", "(quote x)"), ('"~%~"', '"~%~"', "~%~"), ("(list \"\" '())", '("" ())', "( ())")]
SHARED = [("(let ((x (list 1 2))) (list x x))", "(#1=(1 2) #1#)"), ("(C (list 1 2))", "#1=(1 2 . #1#)"), ("(let ((v (vector 1 2))) (vector-set! v 0 v) v)", "#1=#(#1# 2)"),
          ("(let ((s (string #\\a))) (list s s 'b))", '(#1="a" #1# b)'), ("(let ((x (list 'q))) (cons x (vector x x)))", "(#1=(q) . #(#1# #1#))")]
TEXT = ["a", "b", " ", "hello", "(", "\"", "日", "é", "\n", "x\ny", "1", ",", "'", "%", "-", "0", ";", "~~"]


def mbs(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")


def digits(n, radix):
    if n < 0:
        return "-" + digits(-n, radix)
    s = ""
    while True:
        s = "0123456789abcdef"[n % radix] + s
        n //= radix
        if not n:
            return s


class F:
    """builds a format string, its arguments and what it renders to"""

    def __init__(self, r, mode):
        self.r, self.mode = r, mode

    def int(self):
        r = self.r
        return r.choice([0, 1, -1, 7, 10, -10, 255, -255, 4096, 123456789, -987654321, 2 ** 40, -2 ** 50, 576460752303423487, -576460752303423488]) if r.random() < 0.7 else r.randint(-5000, 5000)

    def prefix(self):
        r = self.r
        z = r.random()
        if z < 0.3:
            return "", -1, " "
        w = r.choice([0, 1, 2, 3, 4, 5, 8, 10, 20, 70, 99, 100, 126, 127])
        pad = " "
        t = str(w)
        if r.random() < 0.35:
            t = "0" + t
            if self.mode == "+":
                pad = "0"
        if r.random() < 0.3:
            t += ",%d" % r.choice([0, 1, 2, 5, 127])
        return t, w, pad

    def num(self, n, radix, w, pad):
        s = digits(n, radix)
        if len(s) >= w:
            return s
        if pad == "0" and n < 0:
            return "-" + s[1:].rjust(w - 1, "0")
        return s.rjust(w, pad)

    def build(self, depth=2, maxn=7):
        """fmt, args (texts), rendered"""
        r = self.r
        fmt, args, out = "", [], ""
        fresh = True          # whether ~& is known to write a newline (None: not judged)
        for _ in range(r.randint(0, maxn)):
            z = r.random()
            up = r.random() < 0.25

            def d(c):
                return "~" + (c.upper() if up else c)
            if z < 0.3:
                t = r.choice(TEXT)
                fmt += t
                t = t.replace("~~", "~")
                out += t
                fresh = not t.endswith("\n")
                continue
            k = r.choice("as%~") if self.mode == "28" else r.choice("aassww%~dxobfffc?k&&t_yy")
            if k in "as":
                e = r.choice(ANY)
                fmt += d(k)
                args.append(e[0])
                o = e[2] if k == "a" else e[1]
                out += o
                fresh = True if o else None
            elif k == "%":
                fmt += "~%"
                out += "\n"
                fresh = False
            elif k == "~":
                fmt += "~~"
                out += "~"
                fresh = True
            elif k == "y":
                e = r.choice(ANY)
                fmt += d(k)
                args.append(e[0])
                out += e[1]
                fresh = True
            elif k == "w":
                e = r.choice(SHARED)
                if r.random() < 0.4:
                    e = r.choice(ANY)
                fmt += d(k)
                args.append(e[0])
                out += e[1]
                fresh = True
            elif k in "dxob":
                n = self.int()
                p, w, pad = self.prefix() if self.mode == "+" else ("", -1, " ")
                fmt += "~" + p + (k.upper() if up else k)
                args.append(str(n))
                out += self.num(n, {"d": 10, "x": 16, "o": 8, "b": 2}[k], w, pad)
                fresh = True
            elif k == "f":
                p, w, pad = self.prefix()
                fmt += "~" + p + (k.upper() if up else k)
                if r.random() < 0.5:
                    s = r.choice(["", "a", "hello", "日本", "日本語é", "a b c d e f", "x" * 30])
                    args.append(mbs(s))
                    out += s.rjust(w)
                    if not s and w <= 0:
                        # nothing was written: what ~& then does is not judged
                        fresh = None
                        continue
                else:
                    n = self.int()
                    args.append(str(n))
                    # digits after the point are not produced: all numbers are integers
                    out += self.num(n, 10, w, pad)
                fresh = True
            elif k == "c":
                e, c = r.choice([("#\\a", "a"), ("#\\space", " "), ("#\\日", "日"), ("#\\~", "~"), ("#\\\"", "\""), ("#\\é", "é")])
                fmt += d("c")
                args.append(e)
                out += c
                fresh = True
            elif k == "t":
                fmt += d("t")
                out += "\t"
                fresh = True
            elif k == "_":
                fmt += "~_"
                out += " "
                fresh = True
            elif k == "&":
                if fresh is None:
                    continue
                fmt += "~&"
                if fresh:
                    out += "\n"
                fresh = False
            elif depth > 0:
                f2, a2, o2 = self.build(depth - 1, 4)
                fmt += d(k)
                args += [mbs(f2), "(list %s)" % " ".join(a2)]
                out += o2
                fresh = None
        return fmt, args, out

    def broken(self):
        """a format call that is an error"""
        r = self.r
        fmt, args, _ = self.build(1, 4)
        z = r.randrange(6)
        if z == 0:
            return fmt, args + [r.choice(ANY)[0]]
        if z == 1:
            if not args:
                return fmt + "~a", args
            return fmt, args[:-1]
        if z == 2:
            bad = ["~", "~q", "~z", "~1", "~,", "~5", "~!", "~(", "~日", "~\n", "~ ", "~-5d", "~@a"]
            if self.mode == "28":
                bad += ["~w", "~d", "~x", "~c", "~?", "~t", "~_", "~f", "~5a", "~&", "~h", "~k", "~y", "~o", "~b"]
            b = r.choice(bad)
            return fmt + b + ("" if len(b) == 1 else r.choice(["", " x"])), args + ["1"] * (b in ("~w", "~d", "~x", "~f", "~5a", "~y", "~o", "~b", "~-5d", "~@a"))
        if self.mode == "28":
            return fmt + "~5s", args + ["1"]
        if z == 3:
            k, a = r.choice([("d", "'a"), ("d", '"1"'), ("x", "#\\a"), ("o", "'()"), ("b", "#f"), ("f", "'a"), ("f", "#\\a"), ("f", "'()"), ("c", "1"), ("c", '"a"'), ("c", "'a"), ("5f", "'(1)"),
                             ("?", "'a"), ("?", '"~a" 1'), ("?", '"~a" \'()'), ("?", '"~a" \'(1 2)'), ("?", '"" 5'), ("?", "5 '()"), ("?", '"~q" \'(1)'), ("k", '"~a"')])
            return fmt + "~" + k, args + [a]
        if z == 4:
            k, a = r.choice([("5a", "1"), ("5s", "1"), ("5c", "#\\a"), ("1%", ""), ("1~", ""), ("3w", "1"), ("2t", ""), ("2_", ""), ("1&", ""), ("1y", "1"), ("128f", "1"), ("999f", "1"), ("1000f", "1"), ("5,f", "1"), (",5f", "1"), ("5,128f", "1"),
                             ("5,5,5f", "1"), ("5 f", "1"), ("5,5a", "1")] + ([("5d", "1"), ("5x", "1"), ("05o", "1"), ("1b", "1"), ("5,2d", "1")] if self.mode == "48" else [("128d", "1"), ("0128d", "1"), ("5,x", "1"), (",1b", "1"), ("200,1o", "1")]))
            return fmt + "~" + k, args + ([a] if a else [])
        return r.choice([(None, ["5 \"a\""]), (None, ["'port \"a\""]), (None, ["#t"]), (None, ["#f"]), (None, []), (None, ["#t 5"]), (None, ["(open-input-string \"x\") \"a\""]), (None, ["#f 'a"]), (None, ['#t #t "a"']), (None, ["'()"])])


def gen(r, n, mode):
    out = []
    while len(out) < n:
        g = F(r, mode)
        if r.random() < 0.16:
            fmt, args = g.broken()
            if fmt is None:
                out.append(("(f %s)" % args[0] if args else "(f)", "err", ""))
            else:
                dest = "" if mode == "28" else r.choice(["", "#f ", "#t ", "(open-output-string) "])
                out.append(("(f %s%s %s)" % (dest, mbs(fmt), " ".join(args)), "err", None))
            continue
        fmt, args, o = g.build()
        call = "%s %s" % (mbs(fmt), " ".join(args))
        z = r.randrange(5)
        if z < 2 or mode == "28":
            out.append(("(f %s)" % call, mbw(o), ""))
        elif z == 2:
            out.append(("(f #f %s)" % call, mbw(o), ""))
        elif z == 3:
            out.append(("(begin (f #t %s) 'done)" % call, "done", o))
        else:
            # what the port had before and gets after stays around it
            out.append(("(let ((p (open-output-string))) (write-char #\\< p) (f p %s) (display '> p) (get-output-string p))" % call, mbw("<" + o + ">"), ""))
    return out


def mbw(s):
    """as write shows it"""
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")


def run(ctx):
    ctx.rule = "random format strings over every directive, prefix, nesting and destination, with the right arguments and with missing, surplus, wrong ones; compared with a model; distinct by call text"
    for mode, pre in (("28", PRE28), ("48", PRE48), ("+", PREP)):
        items = common.par(gen, ctx.n(5000 if mode == "28" else 12000, 150000), "%s/%d/%s" % (ctx.prop, ctx.seed, mode), mode)
        vals = [(e, w) for e, w, o in items if o == ""]
        h = len(vals) // 2
        common.bulk(ctx, "san-compact", vals[:h], pre, "format-" + mode)
        common.bulk(ctx, "san-fatty", vals[h:], pre, "format-" + mode)
        # each on its own: what reaches the current output is judged too
        rest = [Case(e, ("err",) if w == "err" else ("ok", w, o), "format-out-" + mode) for e, w, o in items if o != "" and not (o and "\n@@" in o)]
        ctx.run("san-compact", rest[:len(rest) // 2], pre)
        ctx.run("san-fatty", rest[len(rest) // 2:], pre)
        common.bulk(ctx, "san-compact", vals[:len(vals) // 30], pre, "format-gc-" + mode, env={"VF_GC_INTERVAL": "5", "VF_GC_SEED": ctx.seed})
    # widths written with many digits: refused or honoured, nothing else
    r = common.rng(ctx, "wide") if hasattr(common, "rng") else __import__("random").Random("%s/%d/wide" % (ctx.prop, ctx.seed))
    cs = []
    for k in list(range(1, 40)) + [100, 1000, 5000]:
        for _ in range(3):
            w = r.choice([0, 1, 5, 12, 99, 127, 128, 300, 1 << 31, 1 << 62])
            d = r.choice(["%0" + str(k) + "d", "%s"]) % w
            two = r.random() < 0.3
            e = '(f "<~%sF>" %s)' % (d if not two else "%s,%s" % (d, "0" * k + "1"), "'\"ab\"".replace("'", "") if r.random() < 0.3 else "5")
            ok = set('"<%s>"' % x.rjust(w) for x in ("5", "ab", "5.0")) if w < 1000 else set()
            cs.append(Case(e, (lambda ok: lambda res: None if res.kind == "err" or (res.kind == "ok" and res.text.replace("\\", "") in ok) else "expected a refusal or the field of that width")(ok), "format-wide"))
    for v in ("san-compact", "san-fatty"):
        ctx.run(v, cs, PRE48)
    ctx.minimum = 20000
