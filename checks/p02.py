"""P02: loading files."""
from checks import common
from vlib import codec, dgen

PRE = r"""(use srfi-6)(use srfi-23)(use srfi-34)
(define ch integer->char)
(define (codes s) (map char->integer (string->list s)))
(define (put f bytes) (with-char-codec "ISO-8859-1" (lambda () (call-with-output-file f (lambda (p) (for-each (lambda (b) (write-char (ch b) p)) bytes))))))
(define lg '())
(define kk #f)
(define (log x) (set! lg (cons x lg)))
(define zz 'outer)
(define g0 'unset)(define g1 'unset)(define g2 'unset)
(define (cwd) (let loop ((l (string->list (load-path))) (r '())) (if (char=? (car l) #\:) (list->string (reverse (list-tail r 3))) (loop (cdr l) (cons (car l) r)))))
(define (top codec name load)
  (set! lg '())(set! g0 'unset)(set! g1 'unset)(set! g2 'unset)
  (%%set-current-char-codec! codec)
  (let* ((r (guard (e ((%%error-object? e) 'err) (#t (list 'raised e)))
              (call-with-current-continuation (lambda (k) (set! kk k) (load name) 'ok))))
         (c (%%current-char-codec)))
    (%%set-current-char-codec! "UTF-8")
    (list r c (reverse lg) g0 g1 g2 zz)))
"""
LP = {"VF_LIBPATH": 1}
L = lambda x: "(%s)" % " ".join(map(str, x))


class Stop(Exception):
    def __init__(self, what):
        self.what = what


class Gen:
    def __init__(self, r):
        self.r = r
        self.files = {}         # path -> (prelude bytes, forms, tail error, encoding or None)
        self.n = 0
        self.tag = "%x" % r.getrandbits(48)

    def file(self, depth, enc):
        """make a file written in enc; returns its name as used by load"""
        r = self.r
        name = "f%s-%d" % (self.tag, self.n)
        self.n += 1
        c = r.random()
        own = enc
        pre = None
        if c < 0.35:
            own = r.choice(codec.NAMES)
            pre = r.choice(["#! /usr/bin/env sscm -C %s\n", "#! sscm -C %s\n", "#!  /usr/bin/sscm  -C %s \n", "#! /usr/bin/env sscm -C %s ignored\n"]) % own
        elif c < 0.42:
            pre = r.choice(["#! /usr/bin/env sscm\n", "#! sscm\n", "#! \n", "#! /usr/bin/env\n"])
        elif c < 0.46:
            pre = r.choice(["#!sscm\n", "#! sscm -C nonesuch\n", "#! sscm -C\n", "#! sscm -Z\n", "#t\n", "#! " + "x" * 70 + "\n"])
            own = "BAD"
        forms = []
        g = codec.GEN[own if own != "BAD" else enc]
        for _ in range(r.randrange(1, 7)):
            k = r.random()
            if k < 0.2:
                forms.append(("log", r.randrange(1000)))
            elif k < 0.4:
                forms.append(("str", [x for x in (g(r) for _ in range(r.randrange(1, 6))) if x not in (0, 34, 92)]))
            elif k < 0.5:
                forms.append(("codec",))
            elif k < 0.6:
                forms.append(("set", r.randrange(3), r.randrange(100), r.random() < 0.5))
            elif k < 0.65:
                forms.append(("get", r.randrange(3)))
            elif k < 0.7:
                forms.append(("zz",))
            elif k < 0.72:
                forms.append(("comment",))
            elif k < 0.92 and depth > 0:
                how = r.choice(["load", "let", "codec", "guard", "guard", "abs", "proc", "req", "req", "greq", "prim"])
                e2 = r.choice(codec.NAMES) if how == "codec" else own if own != "BAD" else enc
                forms.append((how, self.file(depth - 1, e2), e2))
            elif k < 0.95:
                forms.append((r.choice(["err", "raise", "esc", "missing", "dir"]),))
        tail = r.choice([None] * 9 + ["(log 1", ")", "\"abc", "(1 . )"])
        where = r.choice(["", "", "", "d1/", "d2/"])
        self.files[where + name] = (pre, forms, tail, own)
        if r.random() < 0.15:       # one of the same name later in the path
            other = {"": [], "d1/": ["d2/", ""], "d2/": [""]}[where]
            if other:
                self.files[r.choice(other) + name] = (None, [("log", "wrong")], None, "UTF-8")
        return name

    def find(self, name):
        for d in ("d1/", "d2/", ""):
            if d + name in self.files:
                return d + name

    def bytes(self, path):
        pre, forms, tail, enc = self.files[path]
        r = self.r
        out = bytearray((pre or "").encode())
        for f in forms:
            k = f[0]
            if k == "log":
                t = "(log '%s)" % f[1]
            elif k == "str":
                e = enc if enc != "BAD" else "UTF-8"
                out += b'(log (codes "' + b"".join(codec.encode(e, c) for c in f[1] if codec.valid(e, c)) + b'"))'
                t = ""
            elif k == "codec":
                t = "(log (%%current-char-codec))"
            elif k == "set":
                t = "(%s g%d %d)" % ("define" if f[3] else "set!", f[1], f[2])
            elif k == "get":
                t = "(log g%d)" % f[1]
            elif k == "zz":
                t = "(log zz)"
            elif k == "comment":
                t = "; a comment ( \" \n"
            elif k == "load":
                t = '(load "%s")' % f[1]
            elif k == "abs":
                t = '(load (string-append (cwd) "/%s"))' % self.find(f[1])
            elif k == "let":
                t = '(let ((zz \'inner) (g0 1)) (load "%s"))' % f[1]
            elif k == "req":
                t = r.choice(['(require "%s")', '(begin (require "%s") (require "%s"))', "(for-each require '(\"%s\"))"]).replace("%s", f[1])
            elif k == "greq":
                t = '(guard (e (#t (log \'caught))) (require "%s"))' % f[1]
            elif k == "prim":
                t = r.choice(['(%%load "%s")', '(%%require "%s")', "(map %%load '(\"%s\"))"]).replace("%s", f[1])
            elif k == "proc":
                t = '(for-each load \'("%s"))' % f[1]
            elif k == "codec" or k == "guard":
                t = '(guard (e (#t (log \'caught))) (load "%s"))' % f[1]
            elif k == "err":
                t = "(car 1)"
            elif k == "raise":
                t = "(raise 'r)"
            elif k == "esc":
                t = "(kk 'esc)"
            elif k == "missing":
                t = '(load "missing-file")'
            elif k == "dir":
                t = '(load "")'
            if k == "codec" and len(f) > 1:
                t = '(with-char-codec "%s" (lambda () (load "%s")))' % (f[2], f[1])
            out += t.encode() + r.choice([b"\n", b" ", b"\n\n ; x\n", b""] if k != "comment" else [b"\n"])
        if tail:
            out += b" " + tail.encode()
        return bytes(out)

    def run(self, name, codec_, st):
        path = self.find(name)
        if path is None:
            raise Stop("err")
        pre, forms, tail, enc = self.files[path]
        cur = codec_
        if enc == "BAD":
            raise Stop("err")
        if pre and "-C" in pre:
            cur = enc
        for f in forms:
            k = f[0]
            if k == "log":
                st["log"].append(str(f[1]))
            elif k == "str":
                st["log"].append(L([c for c in f[1] if codec.valid(enc, c)]))
            elif k == "codec" and len(f) == 1:
                st["log"].append('"%s"' % cur)
            elif k == "set":
                st["g"][f[1]] = str(f[2])
            elif k == "get":
                st["log"].append(st["g"][f[1]])
            elif k == "zz":
                st["log"].append("outer")
            elif k in ("load", "abs", "let", "proc", "req", "prim"):
                self.run(f[1], cur, st)
            elif k == "codec":
                self.run(f[1], f[2], st)
            elif k in ("guard", "greq"):
                try:
                    self.run(f[1], cur, st)
                except Stop as e:
                    if e.what == "esc":
                        raise
                    st["log"].append("caught")
            elif k in ("err", "missing", "dir"):
                raise Stop("err")
            elif k == "raise":
                raise Stop("(raised r)")
            elif k == "esc":
                raise Stop("esc")
        if tail:
            raise Stop("err")


def gen(r, n):
    out = []
    for _ in range(n):
        g = Gen(r)
        enc = r.choice(["UTF-8", "UTF-8", r.choice(codec.NAMES)])
        top = g.file(r.choice([0, 1, 2, 3]), enc)
        verb = r.choice(["load", "load", "require"])
        st = {"log": [], "g": ["unset"] * 3}
        try:
            g.run(top, enc, st)
            res = "ok"
        except Stop as e:
            res = e.what
        pre = " ".join("(put \"%s\" '%s)" % (p, L(g.bytes(p))) for p in g.files)
        out.append(("(begin %s (top \"%s\" \"%s\" %s))" % (pre, enc, top, verb),
                    '(%s "%s" %s %s outer)' % (res, enc, L(st["log"]), " ".join(st["g"]))))
    return out


FIXED = [
    ('(load "no such file")', "err"), ('(load \'a)', "err"), ('(load 1)', "err"), ('(load)', "err"), ('(load "")', "err"), ('(load "/no/such/file")', "err"),
    ("(begin (put \"e0\" '()) (load \"e0\") 1)", "1"),
    ("(begin (put \"e1\" (codes \"   ; only a comment\")) (load \"e1\") 1)", "1"),
    ("(begin (put \"e2\" (codes \"(define e2 5)(define (e2f x) (* x e2))\")) (load \"e2\") (e2f 4))", "20"),
    ("(begin (put \"e3\" (codes \"(define e3 (lambda (n) (if (= n 0) 'done (e3 (- n 1)))))(define e3r (e3 1000))\")) (load \"e3\") e3r)", "done"),
    ("(begin (set! lg '()) (put \"e4\" (codes \"(log 1)(log 2)(car '())(log 3)\")) (list (guard (e (#t 'caught)) (load \"e4\")) lg))", "(caught (2 1))"),
    ("(begin (set! lg '()) (put \"e5\" (codes \"(log 1)(log 2)(log 3\")) (list (guard (e (#t 'caught)) (load \"e5\")) lg))", "(caught (2 1))"),
    ("(begin (put \"e6\" (codes \"#! sscm -C EUC-JP\\n(define e6 (%%current-char-codec))\")) (load \"e6\") (list e6 (%%current-char-codec)))", '("EUC-JP" "UTF-8")'),
    ("(begin (put \"e7\" (codes \"#! sscm -C EUC-JP\\n(car 1)\")) (list (guard (e (#t 'c)) (load \"e7\")) (%%current-char-codec)))", '(c "UTF-8")'),
    ("(begin (put \"e8\" (codes \"#! sscm -C Shift_JIS\\n(kk (%%current-char-codec))\")) (list (call-with-current-continuation (lambda (k) (set! kk k) (load \"e8\"))) (%%current-char-codec)))", '("Shift_JIS" "UTF-8")'),
    ("(let ((lcl 1)) (put \"e9\" (codes \"(define e9 (symbol-bound? 'lcl))\")) (load \"e9\") e9)", "#f"),
    ("(begin (put \"d1/a\" (codes \"(define wh 1)\")) (put \"d2/a\" (codes \"(define wh 2)\")) (put \"a\" (codes \"(define wh 3)\")) (load \"a\") wh)", "1"),
    ("(begin (put \"d2/b\" (codes \"(define wh 2)\")) (put \"b\" (codes \"(define wh 3)\")) (load \"b\") wh)", "2"),
    ("(begin (put \"c\" (codes \"(define wh 3)\")) (load \"c\") wh)", "3"),
    ("(begin (load (string-append (cwd) \"/d2/a\")) wh)", "2"), ("(begin (load \"d2/a\") wh)", "2"),
    ("(begin (put \"w2\" (codes \"(define wq (%%current-environment))\")) (let ((x 1)) (load \"w2\")) (null? wq))", "#t"),
]


def run(ctx):
    ctx.rule = ("trees of generated files (forms in order, nested loads, definitions, load and require, encodings by prelude or by caller, preludes good and bad, errors, raises, escapes and "
                "read errors at any place, three library directories) against a model of loading; distinct by text")
    ctx.assume = ["a relative name is looked up in the library path only (documented)"]
    for k, lay in enumerate(("compact", "fatty")):
        common.bulk(ctx, "san-" + lay, FIXED, PRE, "fixed-" + lay, per=100, env=LP)
        items = common.par(gen, ctx.n(6000, 60000), "%s/%d/%d" % (ctx.prop, ctx.seed, k))
        common.bulk(ctx, "san-" + lay, items, PRE, "tree-" + lay, per=1, env=LP)
        common.bulk(ctx, "opt-" + lay, items[::5], PRE, "tree-opt-" + lay, per=1, env=dict(LP, VF_GC_INTERVAL=53, VF_GC_SEED=ctx.seed + 1))
    ctx.minimum = 1500
