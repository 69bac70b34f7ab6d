"""S01: string operations act on characters."""
from checks import common
from vlib import codec

PRE = r"""(use srfi-6)(use srfi-23)(use srfi-34)
(define-macro T (lambda (e) (list 'guard '(e% (#t 'err)) e)))
(define (codes s) (map char->integer (string->list s)))
(define (codes2 s) (let loop ((i (- (string-length s) 1)) (r '())) (if (< i 0) r (loop (- i 1) (cons (char->integer (string-ref s i)) r)))))
(define ch integer->char)
(define (st s) (let ((a (codes s)) (b (codes2 s))) (if (equal? a b) a (list 'differ a b (string-length s)))))
"""


def L(cs):
    return "(%s)" % " ".join(map(str, cs))


def mk(cs):
    return "(list->string (map ch '%s))" % L(cs)


class H:
    def __init__(self, r, char):
        self.r, self.char = r, char
        self.s = []         # (codes, mutable)
        self.ops = []
        self.res = []

    def chars(self, n):
        r = self.r
        if r.random() < 0.15:
            return [self.char(r)] * n
        return [self.char(r) for _ in range(n)]

    def length(self):
        r = self.r
        return r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, r.randrange(60)])

    def new(self, e, cs, mutable=True):
        i = len(self.s)
        self.s.append([list(cs), mutable])
        self.ops.append("(set! s%d %s) (st s%d)" % (i, e, i))
        self.res.append(L(cs))

    def idx(self, n, end=False):
        r = self.r
        c = r.random()
        if c < 0.06:
            return r.choice([-1, n, n + 1, n + 100, -n, 1 << 40, -(1 << 40), -(1 << 59)])
        if c < 0.3:
            return r.choice([0, max(0, n - 1), n])
        return r.randrange(n + (1 if end else 0)) if n else 0

    def step(self):
        r = self.r
        c = r.random()
        k = r.randrange(len(self.s)) if self.s else 0
        if not self.s or c < 0.06:
            cs = self.chars(self.length())
            if self.lit_ok and r.random() < 0.3:
                t = "".join(map(chr, cs))
                self.new('"%s"' % t.replace("\\", "\\\\").replace('"', '\\"'), cs, False)
            else:
                self.new(mk(cs), cs)
            return
        s, m = self.s[k]
        n = len(s)
        put = lambda e, v: (self.ops.append(e), self.res.append(v))
        if c < 0.36:
            i, x = self.idx(n), self.char(r)
            if r.random() < 0.15 and n:
                x = r.choice(s)
            e = "(string-set! s%d %d (ch %d)) (st s%d)" % (k, i, x, k)
            if m and 0 <= i < n:
                s[i] = x
                put(e, L(s))
            else:
                put(e, "err")
        elif c < 0.40:
            x = self.char(r)
            e = "(string-fill! s%d (ch %d)) (st s%d)" % (k, x, k)
            if m:
                self.s[k][0] = [x] * n
                put(e, L(self.s[k][0]))
            else:
                put(e, "err")
        elif c < 0.50:
            i, j = self.idx(n, True), self.idx(n, True)
            if i > j and r.random() < 0.85:
                i, j = j, i
            if 0 <= i <= j <= n:
                if len(self.s) < 9 and r.random() < 0.6:
                    self.new("(substring s%d %d %d)" % (k, i, j), s[i:j])
                else:
                    put("(st (substring s%d %d %d))" % (k, i, j), L(s[i:j]))
            else:
                put("(st (substring s%d %d %d))" % (k, i, j), "err")
        elif c < 0.58:
            i = self.idx(n)
            put("(char->integer (string-ref s%d %d))" % (k, i), str(s[i]) if 0 <= i < n else "err")
        elif c < 0.66:
            ks = [r.randrange(len(self.s)) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
            cs = sum([self.s[x][0] for x in ks], [])
            e = "(string-append%s)" % "".join(" s%d" % x for x in ks)
            if len(cs) > 300:
                return
            if len(self.s) < 9 and r.random() < 0.7:
                self.new(e, cs)
            else:
                put("(st %s)" % e, L(cs))
        elif c < 0.72:
            if len(self.s) < 9:
                self.new("(string-copy s%d)" % k, s)
            else:
                put("(st (string-copy s%d))" % k, L(s))
        elif c < 0.76:
            put("(list (string-length s%d) (string? s%d) (length (string->list s%d)))" % (k, k, k), "(%d #t %d)" % (n, n))
        elif c < 0.80:
            if len(self.s) < 9:
                self.new("(list->string (reverse (string->list s%d)))" % k, s[::-1])
            else:
                put("(st (list->string (reverse (string->list s%d))))" % k, L(s[::-1]))
        elif c < 0.84:
            q, x = self.length(), self.char(r)
            if len(self.s) < 9:
                self.new("(make-string %d (ch %d))" % (q, x), [x] * q)
        elif c < 0.87:
            cs = self.chars(r.randrange(5))
            if len(self.s) < 9:
                self.new("(string%s)" % "".join(" (ch %d)" % x for x in cs), cs)
        elif c < 0.90:
            j = r.randrange(len(self.s))
            put("(list (string=? s%d s%d) (equal? s%d s%d) (eq? s%d s%d))" % ((k, j) * 3),
                "(%s %s %s)" % tuple("#t" if x else "#f" for x in (s == self.s[j][0], s == self.s[j][0], k == j)))
        elif c < 0.93:
            # through a list: the list is fresh
            put("(let ((l (string->list s%d))) (if (pair? l) (set-car! l #\\z)) (st s%d))" % (k, k), L(s))
        elif c < 0.96:
            put("(let ((p (open-output-string))) (display s%d p) (st (get-output-string p)))" % k, L(s))
        elif c < 0.98:
            put("(let ((p (open-input-string s%d))) (let loop ((r '()) (c (read-char p))) (if (eof-object? c) (reverse r) (loop (cons (char->integer c) r) (read-char p)))))" % k, L(s))
        else:
            put("(st (symbol->string (string->symbol s%d)))" % k, L(s))

    def program(self, lit_ok):
        self.lit_ok = lit_ok
        for _ in range(self.r.choice([3, 6, 10, 16, 25])):
            self.step()
        n = len(self.s)
        e = "(let (%s) (let* (%s) (list %s (list%s))))" % (
            " ".join("(s%d #f)" % i for i in range(n)),
            " ".join("(r%d (T (begin %s)))" % (i, o) for i, o in enumerate(self.ops)),
            " ".join("r%d" % i for i in range(len(self.ops))), "".join(" (st s%d)" % i for i in range(n)))
        return e, "(%s (%s))" % (" ".join(self.res), " ".join(L(c) for c, _ in self.s))


def gen(r, n, name):
    out = []
    ascii_ = lambda r: r.randrange(0x20, 0x7f)
    wide = lambda r: r.choice([0x61, 0xe9, 0x3042, 0x10330, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff])
    while len(out) < n:
        c = r.random()
        char = codec.GEN[name] if c < 0.6 or name != "UTF-8" else wide if c < 0.9 else ascii_
        if name != "UTF-8" and c < 0.1:
            char = ascii_
        e, w = H(r, char).program(name == "UTF-8")
        if len(e) < 12000:
            out.append((e, w))
    return out


FIXED = [("(string-length (make-string 5))", "5"), ("(make-string -1 #\\a)", "err"), ("(make-string 'a #\\a)", "err"), ("(make-string 3 'a)", "err"),
         ("(string 'a)", "err"), ("(string #\\a 1)", "err"), ("(string)", '""'), ("(string-append)", '""'), ('(string-append "a" 1)', "err"),
         ("(list->string '(#\\a . #\\b))", "err"), ("(list->string '(1))", "err"), ("(list->string '())", '""'), ("(string->list \"\")", "()"),
         ("(string-ref \"\" 0)", "err"), ("(string-set! (string) 0 #\\a)", "err"), ("(substring \"abc\" 2 1)", "err"),
         ("(substring \"abc\" 3 3)", '""'), ("(substring \"abc\" 0 3)", '"abc"'), ("(substring \"abc\" 4 4)", "err"), ("(substring \"あいう\" 1 2)", '"い"'),
         ("(string-ref \"aéあ𐌰\" 3)", "#\\𐌰"), ("(string-length \"aéあ𐌰\")", "4"), ("(let ((s (string-copy \"aéあ𐌰z\"))) (string-set! s 1 #\\𐌰) (string-set! s 3 #\\b) s)", '"a𐌰あbz"'),
         ("(let ((s (string #\\a))) (string-fill! s #\\あ) s)", '"あ"'), ("(let ((s (string))) (string-fill! s #\\あ) s)", '""'),
         ("(let* ((a (string #\\a #\\b)) (b (string-append a)) ) (string-set! b 0 #\\あ) (list a b))", '("ab" "あb")'),
         ("(let* ((a (string #\\a #\\b)) (b (substring a 0 2)) ) (string-set! b 0 #\\あ) (list a b))", '("ab" "あb")'),
         ("(let* ((a (string #\\a #\\b)) (b (string->symbol a)) ) (string-set! a 0 #\\あ) (list a b))", '("あb" ab)'),
         ("(list->string (list #\\a (integer->char 0)))", "err"), ("(string (integer->char 0))", "err"), ("(make-string 2 (integer->char 0))", "err"),
         ("(let ((s (make-string 2 #\\a))) (string-set! s 0 (integer->char 0)) s)", "err")]


def run(ctx):
    ctx.rule = ("histories of up to 25 string operations over up to 9 strings in every encoding, characters of every byte length, indices "
                "including the ends and beyond; after each operation the whole string is compared with a model on code lists; distinct by history")
    for lay in ("compact", "fatty"):
        items = common.par(gen, ctx.n(3500, 80000), "%s/%d/%s" % (ctx.prop, ctx.seed, lay), "UTF-8")
        common.bulk(ctx, "san-" + lay, items, PRE, "history-" + lay, per=4)
        common.bulk(ctx, "opt-" + lay, items[::4], PRE, "history-" + lay, per=4)
        common.bulk(ctx, "san-" + lay, items[:300 if not ctx.thorough else 8000], PRE, "history-gc-" + lay, per=4,
                    env={"VF_GC_INTERVAL": 61, "VF_GC_SEED": ctx.seed})
        common.bulk(ctx, "san-" + lay, FIXED, PRE, "fixed-" + lay)
    for name in codec.NAMES:
        if name == "UTF-8":
            continue
        lay = ctx.rng.choice(["compact", "fatty"])
        items = common.par(gen, ctx.n(800, 20000), "%s/%d/%s" % (ctx.prop, ctx.seed, name), name)
        common.bulk(ctx, "san-" + lay, items, PRE + '(%%set-current-char-codec! "' + name + '")\n', "history-" + name, per=4)
    ctx.minimum = 8000
