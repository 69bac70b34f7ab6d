"""P01: ports deliver every character exactly once, in order."""
from checks import common
from vlib import dgen, rmodel

PRE = r"""(use srfi-6)(use srfi-23)(use srfi-34)
(define-macro T (lambda (e) (list 'guard '(e% ((%%error-object? e%) 'err)) e)))
(define call/cc call-with-current-continuation)
(define ch integer->char)
(define (has w s) (let ((n (string-length w))) (let loop ((i 0)) (cond ((< (string-length s) (+ i n)) #f) ((string=? w (substring s i (+ i n))) #t) (else (loop (+ i 1)))))))
(define (st l) (list->string (map ch l)))
(define (c x) (if (char? x) (char->integer x) (if (eof-object? x) 'eof x)))
(define (rd x) (if (eof-object? x) 'eof (list x)))
(define (codes s) (map char->integer (string->list s)))
(define (drain p) (let loop ((r '())) (let ((x (read-char p))) (if (eof-object? x) (reverse r) (loop (cons (char->integer x) r))))))
(define (some n p) (let loop ((n n) (r '())) (if (= n 0) (reverse r) (loop (- n 1) (cons (c (read-char p)) r)))))
(define (file f) (call-with-input-file f drain))
(define (out cs f) (call-with-output-file f (lambda (p) (for-each (lambda (x) (write-char (ch x) p)) cs))))
(define std (current-output-port))
(define stdi (current-input-port))
(define sr '())
(define (log x) (set! sr (cons x sr)) x)
(define (capture thunk) (set! sr '())
  (let ((p (open-output-string)))
    (%%set-current-output-port! p)
    (let* ((v (guard (e (#t (list 'raised e))) (thunk)))
           (same (eq? p (current-output-port))))
      (%%set-current-output-port! std)
      (let ((same2 (eq? stdi (current-input-port))))
        (%%set-current-input-port! stdi)
        (list v (codes (get-output-string p)) (reverse sr) same same2)))))
"""


def L(x):
    return "(%s)" % " ".join(map(str, x))


def char(r):
    c = r.random()
    if c < 0.55:
        return r.choice([32, 10, 13, 9, 40, 41, 34, 59, 92, 35, 46, 39, r.randrange(33, 127)])
    if c < 0.6:
        return r.choice([0, 1, 127, 7, 27])
    return r.choice([0xe9, 0x7ff, 0x800, 0x3042, 0x65e5, 0xffff, 0x10000, 0x10ffff, 0x1f600])


def source(r):
    """codes; sometimes data separated by spaces"""
    k = r.random()
    if k < 0.12:
        return []
    if k < 0.5:
        return [char(r) for _ in range(r.choice([1, 2, 5, 20, r.randrange(1, 60)]))]
    if k < 0.55:
        return [char(r) for _ in range(r.choice([4095, 4096, 4097, 9000]))]
    g = dgen.G(r, lambda r: r.choice([97, 0x3042, 0xe9, 0x1f600, r.randrange(33, 127)]))
    out = []
    for _ in range(r.randrange(1, 6)):
        out += dgen.text(r, g.datum(2)) + dgen.o(dgen.space(r, 1))
    return out


class In:
    def __init__(self, codes, bits):
        self.m = rmodel.Reader(list(codes), bits)
        self.closed = False
        self.dead = False


def history(r, bits):
    """one expression working on several ports, with the list of expected results"""
    files = {}
    ports = []      # (kind 'i'|'o'|'s', state)
    ops, want = [], []
    put = lambda e, w: (ops.append(e), want.append(w))
    nfile = [0]
    uid = "%x" % r.getrandbits(40)
    for _ in range(r.randrange(6, 26)):
        k = r.random()
        if k < 0.3 and len(ports) < 6 or not ports:
            i = len(ports)
            c = r.random()
            if c < 0.3:
                s = [x for x in source(r) if x]
                ops.append("(set! p%d (open-input-string (st '%s)))" % (i, L(s)))
                want.append(None)
                ports.append(["i", In(s, bits)])
            elif c < 0.55:
                if files and r.random() < 0.7:
                    f = r.choice(list(files))
                else:
                    f = "w%d-%s" % (nfile[0], uid)
                    nfile[0] += 1
                    files[f] = source(r)
                    put("(begin (out '%s \"%s\") 'w)" % (L(files[f]), f), "w")
                if any(p[0] == "o" and p[1]["f"] == f and not p[1]["closed"] for p in ports):
                    continue
                ops.append("(set! p%d (open-input-file \"%s\"))" % (i, f))
                want.append(None)
                ports.append(["i", In(files[f], bits)])
            elif c < 0.75:
                ops.append("(set! p%d (open-output-string))" % i)
                want.append(None)
                ports.append(["s", {"buf": [], "closed": False}])
            else:
                f = "o%d-%s" % (r.randrange(3), uid)
                if any(p[0] == "o" and p[1]["f"] == f and not p[1]["closed"] for p in ports) or any(p[0] == "i" and not p[1].closed for p in ports):
                    continue
                ops.append("(set! p%d (open-output-file \"%s\"))" % (i, f))
                want.append(None)
                ports.append(["o", {"f": f, "buf": [], "closed": False}])
            continue
        i = r.randrange(len(ports))
        kind, s = ports[i]
        k = r.random()
        if kind == "i":
            if s.dead:
                continue
            if k < 0.07:
                put("(T (begin (close-input-port p%d) 'closed))" % i, "closed")
                s.closed = True
            elif k < 0.12:
                put("(T (%s p%d))" % (r.choice(["newline", "write-char #\\a", "display \"x\"", "write 'x", "get-output-string"]), i), "err")
            elif k < 0.15:
                put("(T (list (input-port? p%d) (output-port? p%d)))" % (i, i), "(#t #f)")
            elif k < 0.18:
                put("(T (begin (close-output-port p%d) 'ok))" % i, "ok")
            elif k < 0.45:
                w = "err" if s.closed else None
                if w is None:
                    x = s.m.get()
                    w = "eof" if x is None else str(x)
                put("(T (c (read-char p%d)))" % i, w)
            elif k < 0.62:
                w = "err" if s.closed else None
                if w is None:
                    x = s.m.peek()
                    w = "eof" if x is None else str(x)
                put("(T (c (peek-char p%d)))" % i, w)
                if r.random() < 0.4:
                    put("(T (let ((a (peek-char p%d))) (c (peek-char p%d))))" % (i, i), w)
            elif k < 0.75:
                n = r.choice([1, 3, 10, 50])
                if s.closed:
                    put("(T (some %d p%d))" % (n, i), "err")
                else:
                    got = []
                    for _ in range(n):
                        x = s.m.get()
                        got.append("eof" if x is None else x)
                    put("(T (some %d p%d))" % (n, i), L(got))
            elif k < 0.8:
                if s.closed:
                    put("(T (drain p%d))" % i, "err")
                else:
                    got = []
                    while s.m.peek() is not None:
                        got.append(s.m.get())
                    put("(T (drain p%d))" % i, L(got))
            else:
                if s.closed:
                    put("(T (rd (read p%d)))" % i, "err")
                    continue
                try:
                    x = s.m.one()
                    if x is None:
                        put("(T (rd (read p%d)))" % i, "eof")
                    else:
                        t = "".join(map(chr, dgen.show(x)))
                        put("(T (rd (read p%d)))" % i, "(%s)" % t)
                except rmodel.Err:
                    put("(T (rd (read p%d)))" % i, "err")
                    s.dead = True
                except rmodel.Unsure:
                    return None
        else:
            closed = s["closed"]
            if k < 0.1:
                put("(T (begin (close-output-port p%d) 'closed))" % i, "closed")
                if not closed:
                    s["closed"] = True
                    if kind == "o":
                        files[s["f"]] = s["buf"]
            elif k < 0.15:
                put("(T (%s p%d))" % (r.choice(["read-char", "peek-char", "read", "char-ready?"]), i), "err")
            elif k < 0.18:
                put("(T (list (input-port? p%d) (output-port? p%d)))" % (i, i), "(#f #t)")
            elif k < 0.21:
                put("(T (begin (close-input-port p%d) 'ok))" % i, "ok")
            elif k < 0.4 and kind == "s":
                if any(x == 0 for x in s["buf"]):
                    continue
                put("(T (codes (get-output-string p%d)))" % i, "err" if closed else L(s["buf"]))
            else:
                z = r.random()
                if z < 0.35:
                    x = char(r) or 65
                    e, add = "(write-char (ch %d) p%d)" % (x, i), [x]
                elif z < 0.5:
                    e, add = "(newline p%d)" % i, [10]
                elif z < 0.8:
                    x = [char(r) or 65 for _ in range(r.choice([0, 1, 5, 30, 200] if r.random() < 0.95 else [4096, 5000]))]
                    e, add = "(display (st '%s) p%d)" % (L(x), i), x
                else:
                    g = dgen.G(r, lambda r: r.choice([97, 0x3042, 0xe9, r.randrange(33, 127)]))
                    d = g.datum(2)
                    disp = r.random() < 0.4
                    e, add = "(%s %s p%d)" % ("display" if disp else "write", dgen.expr(d), i), dgen.show(d, disp)
                    if isinstance(add, str):
                        add = dgen.o(add)
                    if 0 in add:
                        continue
                put("(T (begin %s 'w))" % e, "err" if closed else "w")
                if not closed:
                    s["buf"] += add
    for i, (kind, s) in enumerate(ports):
        if kind == "o" and not s["closed"]:
            put("(T (begin (close-output-port p%d) 'closed))" % i, "closed")
            files[s["f"]] = s["buf"]
        if kind == "i" and not s.closed and not s.dead and r.random() < 0.5:
            got = []
            while s.m.peek() is not None:
                got.append(s.m.get())
            put("(T (drain p%d))" % i, L(got))
    for f in sorted(files):
        if f[0] == "o" or r.random() < 0.3:
            put('(T (file "%s"))' % f, L(files[f]))
    vars_ = "".join("(p%d #f)" % i for i in range(len(ports)))
    body, w = [], []
    pending = ""
    for e, x in zip(ops, want):
        if x is None:
            pending += e
        else:
            body.append("(begin %s %s)" % (pending, e) if pending else e)
            w.append(x)
            pending = ""
    return "(let* (%s) (list %s))" % (vars_, " ".join(body)), "(%s)" % " ".join(w)


def histories(r, n, bits):
    out = []
    while len(out) < n:
        h = history(r, bits)
        if h and len(h[0]) < 60000:
            out.append(h)
    return out


class Redir:
    """nested redirections with escapes"""

    def __init__(self, r):
        self.r = r
        self.n = 0
        self.base = []
        self.out = self.base        # the current output port's buffer (None: closed)
        self.inp = None             # current input codes
        self.log = []
        self.files = []             # (name, buffer) closed properly
        self.pre = []
        self.ks = 0
        # a port left by an escape is flushed whenever it is collected: no other case may use its file
        self.id = "%x" % r.getrandbits(40)

    def word(self):
        self.n += 1
        return "%s%d" % (self.r.choice(["a", "bc", "é", "あ"]), self.n)

    def body(self, d, scopes):
        """(text, escape target or None)"""
        r = self.r
        parts = []
        esc = None
        for _ in range(r.randrange(1, 5)):
            t, esc = self.step(d, scopes)
            parts.append(t)
            if esc is not None:
                parts.append('(display "unreached")')
                break
        return " ".join(parts), esc

    def step(self, d, scopes):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.3:
            w = self.word()
            z = r.random()
            if z < 0.6:
                self.out += dgen.o(w)
                return '(display "%s")' % w, None
            if z < 0.75:
                self.out += [10]
                return "(newline)", None
            if z < 0.9:
                self.out += dgen.o('"%s"' % w)
                return '(write "%s")' % w, None
            self.out += [ord(w[0])]
            return "(write-char #\\%s)" % w[0], None
        if k < 0.4 and self.inp is not None:
            m = self.inp
            z = r.random()
            if z < 0.5:
                x = m.get()
                self.log.append("eof" if x is None else str(x))
                return "(log (c (read-char)))", None
            x = m.peek()
            self.log.append("eof" if x is None else str(x))
            return "(log (c (peek-char)))", None
        if k < 0.6:
            f = "r%d-%s" % (self.n, self.id)
            self.n += 1
            old, buf = self.out, []
            self.out = buf
            t, e = self.body(d - 1, scopes)
            self.out = old
            if e is None:
                self.files.append((f, buf))
                return '(with-output-to-file "%s" (lambda () %s))' % (f, t), None
            return '(with-output-to-file "%s" (lambda () %s))' % (f, t), e
        if k < 0.68:
            f = "q%d-%s" % (self.n, self.id)
            self.n += 1
            w = self.word()
            buf = dgen.o(w)
            t, e = self.body(d - 1, scopes)
            if e is None:
                self.files.append((f, buf))
            return '(call-with-output-file "%s" (lambda (pp) (display "%s" pp) %s))' % (f, w, t), e
        if k < 0.8:
            f = "in%d-%s" % (self.n, self.id)
            self.n += 1
            src = [ord(x) for x in "".join(r.choice("xyzé あ\n") for _ in range(r.randrange(5)))]
            self.pre.append('(out \'%s "%s")' % (L(src), f))
            old = self.inp
            self.inp = rmodel.Reader(src)
            t, e = self.body(d - 1, scopes)
            self.inp = old
            return '(with-input-from-file "%s" (lambda () %s))' % (f, t), e
        if k < 0.88:
            me = "k%d" % self.ks
            self.ks += 1
            t, e = self.body(d - 1, scopes + [me])
            return "(call/cc (lambda (%s) %s))" % (me, t), None if e == me else e
        if k < 0.94:
            me = "'x%d" % self.ks
            self.ks += 1
            t, e = self.body(d - 1, scopes + [me])
            return "(guard (e ((eq? e %s) #f)) %s)" % (me, t), None if e == me else e
        if k < 0.97 and scopes:
            s = r.choice(scopes)
            return ("(raise %s)" if s[0] == "'" else "(%s 1)") % s, s
        w, w2 = self.word(), self.word()
        self.out += dgen.o(w)
        t, e = self.body(d - 1, scopes)
        self.out += dgen.o(w2)
        return '(dynamic-wind (lambda () (display "%s")) (lambda () %s) (lambda () (display "%s")))' % (w, t, w2), e


def redirections(r, n):
    out = []
    while len(out) < n:
        g = Redir(r)
        t, e = g.body(r.choice([3, 4, 5]), [])
        if len(t) < 40:
            continue
        fs = " ".join('(file "%s")' % f for f, _ in g.files)
        out.append(("(begin %s (list (capture (lambda () %s 'v)) %s))" % (" ".join(g.pre), t, fs),
                    "((v %s %s #t #t)%s)" % (L(g.base), L(g.log), "".join(" " + L(b) for _, b in g.files))))
    return out


FIXED = [
    ('(T (open-input-file "none"))', "err"), ('(T (open-output-file "none/none"))', "err"), ('(T (call-with-input-file "none" read))', "err"),
    ('(T (with-input-from-file "none" read))', "err"), ('(eq? stdi (current-input-port))', "#t"),
    ('(T (with-output-to-file "none/x" newline))', "err"), ('(eq? std (current-output-port))', "#t"),
    ('(T (let ((p (open-input-file "."))) (list (T (read-char p)) (T (peek-char p)) (T (read p)) (begin (close-input-port p) \'c) (T (read-char p)))))', "(err err err c err)"),
    ('(let ((p (open-output-file "/dev/full"))) (list (T (begin (write-char #\\a p) \'w)) (T (begin (close-output-port p) \'c)) (T (begin (close-output-port p) \'c)) (T (write-char #\\a p))))', "(w err c err)"),
    ('(let ((p (open-output-file "/dev/full"))) (T (let loop ((i 0)) (if (< i 100000) (begin (write-char #\\a p) (loop (+ i 1))) \'lost))))', "err"),
    ('(let ((p (open-output-file "/dev/full"))) (T (let loop ((i 0)) (if (< i 20000) (begin (write (quote abcdefgh) p) (loop (+ i 1))) \'lost))))', "err"),
    ('(let* ((s (string->symbol (make-string 50000 #\\a))) (p (open-output-file "/dev/full"))) (T (begin (display s p) (close-output-port p) \'lost)))', "err"),
    ('(begin (let loop ((i 0)) (if (< i 20) (begin (write-char #\\a (open-output-file "/dev/full")) (loop (+ i 1))))) (vf-gc) (vf-gc) (list 1 2))', "(1 2)"),
    ('(T (call-with-output-file "/dev/full" (lambda (p) (display (make-string 100000 #\\a) p))))', "err"),
    ('(T (with-output-to-file "/dev/full" (lambda () (display "a"))))', "err"), ('(eq? std (current-output-port))', "#t"),
    ('(let ((p (open-input-string "abc"))) (T (%%set-current-output-port! p)))', "err"), ('(let ((p (open-output-string))) (T (%%set-current-input-port! p)))', "err"),
    ('(let ((p (open-input-string "abc"))) (close-input-port p) (T (%%set-current-input-port! p)))', "err"),
    ('(eq? stdi (current-input-port))', "#t"), ('(T (%%set-current-output-port! 1))', "err"), ('(T (input-port? 1))', "err"), ('(T (output-port? "x"))', "err"),
    ('(let ((p (open-input-string ""))) (list (c (peek-char p)) (c (read-char p)) (c (peek-char p)) (c (read-char p)) (rd (read p)) (char-ready? p)))', "(eof eof eof eof eof #t)"),
    ('(let ((p (open-output-string))) (list (get-output-string p) (begin (display "ab" p) (get-output-string p)) (get-output-string p) (begin (display "é" p) (get-output-string p))))', '("" "ab" "ab" "abé")'),
    ('(let ((p (open-output-string))) (display "ab" p) (let ((s (get-output-string p))) (string-set! s 0 #\\x) (list s (get-output-string p))))', '("xb" "ab")'),
    ('(let* ((s (string #\\a #\\b)) (p (open-input-string s))) (read-char p) (string-set! s 1 #\\z) (c (read-char p)))', "98"),
    ('(T (read-char 1))', "err"), ('(T (write-char "a"))', "err"), ('(T (write-char #\\a 1))', "err"), ('(T (display 1 2))', "err"), ('(T (newline 1))', "err"),
    ('(T (read-char std std))', "err"), ('(T (open-input-string \'a))', "err"), ('(T (open-input-file \'a))', "err"), ('(T (get-output-string 1))', "err"),
    ('(begin (call-with-output-file "tw" (lambda (p) (display "long text" p))) (call-with-output-file "tw" (lambda (p) (display "x" p))) (file "tw"))', "(120)"),
    ('(call-with-output-file "va" (lambda (p) 42))', "42"), ('(with-output-to-file "va" (lambda () \'x))', "x"), ('(call-with-input-file "va" (lambda (p) (c (read-char p))))', "eof"),
    ('(begin (out \'(49 32 50) "rr") (with-input-from-file "rr" (lambda () (let* ((a (read)) (b (c (peek-char))) (d (read)) (e (rd (read)))) (list a b d e)))))', "(1 32 2 eof)"),
    # a port keeps the encoding it was opened in
    ('(begin (out \'(12354 12356) "cc") (call-with-input-file "cc" (lambda (p) (let ((a (c (read-char p)))) (with-char-codec "ISO-8859-1" (lambda () (list a (c (read-char p)) (length (file "cc")))))))))', "(12354 12356 6)"),
    ('(let ((p (open-output-file "cd"))) (with-char-codec "ISO-8859-1" (lambda () (write-char (ch 233) p))) (write-char (ch 233) p) (close-output-port p) (file "cd"))', "(233 233)"),
    ('(let ((p (open-input-string "(1 2) x"))) (list (read p) (c (read-char p)) (read p) (rd (read p))))', "((1 2) 32 x eof)"),
    # the error port: reports go to the one that was set, and to no other
    ('(let ((p (open-output-string)) (q (open-output-string)) (old (%%current-error-port))) (%%set-current-error-port! p) (let ((in (eq? (%%current-error-port) p))) '
     '(guard (e (#t (%%inspect-error e))) (error "mark" 1 2)) (%%set-current-error-port! q) (%%inspect-error (quote obj)) (%%set-current-error-port! old) '
     '(list in (eq? old (%%current-error-port)) (eq? std (current-output-port)) (has "mark 1 2" (get-output-string p)) (has "obj" (get-output-string p)) '
     '(has "mark" (get-output-string q)) (has "obj" (get-output-string q)))))', "(#t #t #t #t #f #f #t)"),
    ('(let ((p (open-input-string "abc"))) (T (%%set-current-error-port! p)))', "err"), ('(T (%%set-current-error-port! 1))', "err"),
    ('(let ((p (open-output-string))) (close-output-port p) (T (%%set-current-error-port! p)))', "err"),
    ('(let ((p (open-input-string "ab;c\\nde"))) (list (read p) (c (peek-char p)) (read p)))', "(ab 59 de)"),
]


def run(ctx):
    ctx.rule = ("random histories over several string and file ports (read-char, peek-char, read, runs, drains, write, display, newline, get-output-string, close, "
                "wrong direction, closed) against a character-queue model; nested redirections with continuations, raises and winds leaving them; failing devices")
    ctx.assume = ["after a read error the position in that port is not judged", "output of a file port is judged once the port is closed"]
    for k, lay in enumerate(("compact", "fatty")):
        common.bulk(ctx, "san-" + lay, FIXED, PRE, "fixed-" + lay, per=100)
        h = common.par(histories, ctx.n(3000, 60000), "%s/%d/%d" % (ctx.prop, ctx.seed, k), 60 if k == 0 else 64)
        common.bulk(ctx, "san-" + lay, h, PRE, "history-" + lay, per=4)
        common.bulk(ctx, "opt-" + lay, h[::3], PRE, "history-opt-" + lay, per=4)
        common.bulk(ctx, "gos-" + lay, h[:ctx.n(300, 3000)], PRE, "history-gc-" + lay, per=2, env={"VF_GC_INTERVAL": 37, "VF_GC_SEED": ctx.seed + 1})
        common.bulk(ctx, "san-" + lay, common.par(redirections, ctx.n(2000, 40000), "%s/%d/r%d" % (ctx.prop, ctx.seed, k)), PRE, "redirect-" + lay, per=4)
    ctx.minimum = 5000
