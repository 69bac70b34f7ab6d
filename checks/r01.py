"""R01: what is written reads back as the same datum."""
from checks import common
from checks.n01 import BITS
from vlib import codec, dgen

PRE = r"""(use srfi-6)(use srfi-23)(use srfi-34)
(define (codes s) (map char->integer (string->list s)))
(define (wr x) (let ((p (open-output-string))) (write x p) (get-output-string p)))
(define (ds x) (let ((p (open-output-string))) (display x p) (get-output-string p)))
(define (kind x) (cond ((pair? x) 1) ((null? x) 2) ((vector? x) 3) ((string? x) 4) ((char? x) 5) ((symbol? x) 6)
   ((number? x) 7) ((eq? x #t) 8) ((eq? x #f) 9) (else 10)))
(define (deq a b)
  (and (= (kind a) (kind b))
       (case (kind a)
         ((1) (and (deq (car a) (car b)) (deq (cdr a) (cdr b))))
         ((3) (deq (vector->list a) (vector->list b)))
         ((4) (and (string=? a b) (= (string-length a) (string-length b))))
         ((5) (= (char->integer a) (char->integer b)))
         ((6) (eq? a b))
         ((7) (= a b))
         (else #t))))
(define (back s x) (let* ((ip (open-input-string s)) (y (read ip)) (e (read ip))) (list (deq x y) (equal? x y) (eof-object? e))))
(define (rt x) (let ((s (wr x))) (list (deq x x) s (ds x) (back s x) (string=? s (wr x)))))
(define (rtc x) (let ((s (wr x))) (list (codes s) (codes (ds x)) (back s x))))
(define (rtf . xs)
  (call-with-output-file "f" (lambda (p) (for-each (lambda (x) (write x p) (newline p)) xs)))
  (call-with-input-file "f"
    (lambda (p) (let loop ((xs xs) (r '()))
      (if (null? xs) (append (reverse r) (list (eof-object? (read p)) (eof-object? (read p))))
        (let ((y (read p))) (loop (cdr xs) (cons (deq (car xs) y) r))))))))
(define (rts sep . xs)
  (let ((p (open-output-string)))
    (for-each (lambda (x) (write x p) (display sep p)) xs)
    (let ((ip (open-input-string (get-output-string p))))
      (let loop ((xs xs) (r '()))
        (if (null? xs) (append (reverse r) (list (eof-object? (read ip))))
          (let ((y (read ip))) (loop (cdr xs) (cons (deq (car xs) y) r))))))))
"""


def lit(codes):
    return "".join(map(chr, dgen.wstring(codes)))


def gen(r, n, bits, name):
    g = dgen.G(r, codec.GEN[name], bits, name == "UTF-8")
    out = []
    ok = "(#t #t #t)"
    while len(out) < n:
        d = g.datum(r.choice([0, 0, 1, 2, 3, 4]))
        e = dgen.expr(d)
        if len(e) > 4000:
            continue
        if name != "UTF-8":
            l = lambda c: "(%s)" % " ".join(map(str, c)) if c else "()"
            s = dgen.show(d)
            t = dgen.show(d, True)
            if 0 in t:
                continue
            c = r.random()
            if c < 0.6:
                out.append(("(rtc %s)" % e, "(%s %s %s)" % (l(s), l(t), ok)))
            elif c < 0.8:
                ds = [d] + [g.datum(2) for _ in range(r.randrange(5))]
                out.append(("(rtf %s)" % " ".join(map(dgen.expr, ds)), "(%s)" % " ".join(["#t"] * (len(ds) + 2))))
            else:
                ds = [d] + [g.datum(2) for _ in range(r.randrange(5))]
                out.append(('(rts " " %s)' % " ".join(map(dgen.expr, ds)), "(%s)" % " ".join(["#t"] * (len(ds) + 1))))
            continue
        c = r.random()
        t = dgen.show(d, True)
        if c < 0.6 and 0 not in t:
            out.append(("(rt %s)" % e, "(#t %s %s %s #t)" % (lit(dgen.show(d)), lit(t), ok)))
        elif c < 0.72:
            # quoted literal through the program reader
            s = dgen.show(d)
            if any(x < 32 and x not in (9, 10, 12) for x in s):
                continue
            out.append(("(let ((x %s) (y '%s)) (list (deq x y) (equal? y x) (wr y)))" % (e, "".join(map(chr, s))), "(#t #t %s)" % lit(s)))
        elif c < 0.85:
            ds = [d] + [g.datum(2) for _ in range(r.randrange(5))]
            out.append(("(rtf %s)" % " ".join(map(dgen.expr, ds)), "(%s)" % " ".join(["#t"] * (len(ds) + 2))))
        else:
            ds = [d] + [g.datum(2) for _ in range(r.randrange(5))]
            out.append(('(rts %s %s)' % (r.choice(['" "', '"\\n"', '"\\t"', '" ;x\\n"']), " ".join(map(dgen.expr, ds))),
                        "(%s)" % " ".join(["#t"] * (len(ds) + 1))))
    return out


def chars(name, r, step):
    """every character by itself: as a character, in a string"""
    out = []
    if name == "UTF-8":
        pool = list(range(0, 0x800)) + list(range(0x800, 0x110000, step)) + [0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]
    elif name == "ISO-8859-1":
        pool = list(range(256))
    else:
        pool = [c for c in range(0x10000) if codec.valid(name, c)]
        pool = [c for c in pool if c < 0x100 or c % step == r.randrange(step) % step or (c & 255) in (0x40, 0x5c, 0xa1, 0xfc, 0xfe)]
        if name == "EUC-JP":
            pool += [0x8fa1a1, 0x8ffefe, 0x8fa1fe, 0x8fb0a1]
    pool = [c for c in pool if codec.valid(name, c)]
    for i in range(0, len(pool), 20):
        cs = pool[i:i + 20]
        out.append(("(map (lambda (n) (let* ((c (integer->char n)) (y (read (open-input-string (wr c))))) (if (= n (char->integer y)) 0 n))) '(%s))"
                    % " ".join(map(str, cs)), "(%s)" % " ".join("0" for _ in cs)))
        cs = [c for c in cs if c]
        out.append(("(map (lambda (n) (let* ((c (string (integer->char n) #\\a)) (y (read (open-input-string (wr c))))) (if (string=? c y) (string-length y) n))) '(%s))"
                    % " ".join(map(str, cs)), "(%s)" % " ".join("2" for _ in cs)))
    return out


def run(ctx):
    ctx.rule = ("random data (nested lists, dotted lists, vectors, strings and symbols of any character of the encoding, extreme integers) "
                "written to string and file ports, compared with the expected text and with the datum read back, in every encoding; "
                "every character by itself; distinct by expression")
    ctx.assume = ["symbols are those the lexical syntax can denote (the implementation has no |..| notation)"]
    for lay, bits in BITS.items():
        items = common.par(gen, ctx.n(6000, 150000), "%s/%d/%s" % (ctx.prop, ctx.seed, lay), bits, "UTF-8")
        common.bulk(ctx, "san-" + lay, items, PRE, "datum-" + lay, per=8)
        common.bulk(ctx, "opt-" + lay, items[::3], PRE, "datum-" + lay, per=8)
    for name in codec.NAMES:
        pre = PRE + '(%%%%set-current-char-codec! "%s")\n' % name if name != "UTF-8" else PRE
        pre = pre.replace("%%%%", "%%")
        lay = ctx.rng.choice(list(BITS))
        if name != "UTF-8":
            items = common.par(gen, ctx.n(1600, 40000), "%s/%d/%s" % (ctx.prop, ctx.seed, name), 60, name)
            common.bulk(ctx, "san-" + lay, items, pre, "datum-" + name, per=8)
        common.bulk(ctx, "san-" + lay, chars(name, ctx.rng, ctx.n(97 if name == "UTF-8" else 7, 1 if name != "UTF-8" else 3)), pre,
                    "chars-" + name, per=4)
    ctx.minimum = 10000
