"""R04: objects without a datum syntax are rendered as specified wherever they occur."""
import re

from checks import common, e04
from vlib import codec, dgen
from vlib.check import Case

PRE = r"""(use srfi-6)(use srfi-23)(use srfi-28)(use srfi-34)(use srfi-38)
(define (to f) (lambda (x) (let ((p (open-output-string))) (f x p) (get-output-string p))))
;; addresses differ from run to run
(define (strip s)
  (let loop ((l (string->list s)) (r '()))
    (cond ((null? l) (list->string (reverse r)))
          ((and (char=? (car l) #\0) (pair? (cdr l)) (char=? (cadr l) #\x))
           (let skip ((l (cddr l)))
             (if (and (pair? l) (or (char-numeric? (car l)) (memv (car l) '(#\a #\b #\c #\d #\e #\f)))) (skip (cdr l)) (loop l (cons #\x (cons #\0 r))))))
          (else (loop (cdr l) (cons (car l) r))))))
(define wr (to write))
(define ds (to display))
(define ws (to write/ss))
(define (fmt d) (lambda (x) (format d x)))
(define (rd s) (guard (e (#t 'err)) (read (open-input-string s)) 'read))
(define (go x)
  (let* ((w (wr x)) (d (ds x)) (s (ws x)))
    (list (strip w) (strip d)
          (string=? w (wr x)) (string=? d (ds x)) (string=? w s)
          (string=? w ((fmt "~s") x)) (string=? d ((fmt "~a") x))
          (rd w))))
(define (by-file x)
  (call-with-output-file "r04f" (lambda (p) (write x p) (display x p)))
  (call-with-input-file "r04f" (lambda (p) (let loop ((c (read-char p)) (r '())) (if (eof-object? c) (strip (list->string (reverse r))) (loop (read-char p) (cons c r)))))))
(define (caught thunk) (guard (e (#t e)) (thunk) 'nothing))
(define kar car)
(define (tail? s e) (let ((n (- (string-length s) (string-length e)))) (and (>= n 0) (string=? (substring s n (string-length s)) e))))
;; the error object e is #<error "REASON" OBJECT>, REASON OBJECT when displayed
(define (ends e text)
  (let* ((w (strip (wr e))) (d (strip (ds e))) (k (- (string-length d) (string-length text))))
    (list (tail? w (string-append text ">")) (tail? d text)
          (or (< k 0) (string=? w (string-append "#<error " (wr (substring d 0 k)) text ">"))))))
(define (own a . b) (list a b))
(define-macro mm4 (lambda (x . y) (cons x y)))
"""

SUBR = """car cdr cons list vector + - * quotient eq? eqv? equal? apply values dynamic-wind call-with-values string-append
string-length vector-ref symbol->string char->integer read write display newline list-tail append reverse length not
null? pair? string? char? procedure? number->string read-char peek-char open-input-file string=? char<? raise
with-exception-handler error open-input-string get-output-string format write-with-shared-structure vector-fill!
string-set! interaction-environment load exact->inexact""".split()
SUBR.remove("exact->inexact")
SUBR.remove("write-with-shared-structure")
SUBR.remove("car")
SUBR.remove("load")
SUBR.remove("write")


class Gen:
    def __init__(self, r):
        self.r = r
        self.g = dgen.G(r, lambda r: r.randrange(32, 127), 30, False)

    def datum(self, depth):
        while True:
            d = self.g.datum(depth)
            s = dgen.show(d)
            if all(32 <= c < 127 for c in s) and all(32 <= c < 127 for c in dgen.show(d, True)) and len(s) < 200:
                return d

    def leaf(self):
        """(expression, written, displayed, has no datum syntax)"""
        r = self.r
        c = r.randrange(11)
        t = lambda x: "".join(map(chr, x))
        if c <= 2:
            d = self.datum(r.choice([0, 0, 1, 2]))
            return dgen.expr(d), t(dgen.show(d)), t(dgen.show(d, True)), False
        if c == 3:
            n = r.choice(SUBR)
            return n, "#<subr %s>" % n, "#<subr %s>" % n, True
        if c <= 6:
            f = r.choice(["()", "x", "(x)", "(x y)", "(x . y)", "(x y . z)"])
            body = [self.datum(2) for _ in range(r.choice([1, 1, 2, 3]))]
            q = lambda disp: "#<closure (%s %s)>" % (f, " ".join("(quote %s)" % t(dgen.show(d, disp)) for d in body))
            e = "(lambda %s %s)" % (f, " ".join(r.choice(["'%s", "(quote %s)"]) % t(dgen.show(d)) for d in body))
            if r.random() < 0.3:
                e = r.choice(["(let ((k 1)) %s)", "((lambda (k) %s) 'k)", "(letrec ((f %s)) f)", "(let () (define f %s) f)", "(car (list %s 1))"]) % e
            return e, q(False), q(True), True
        if c == 7:
            return (r.choice(["(if #f #f)", "(cond (#f 1))", "(case 1 ((2) 3))", "(vector-fill! (make-vector 1 0) 1)"]),) + ("#<undef>",) * 2 + (True,)
        if c == 8:
            return '(read (open-input-string ""))', "#<eof>", "#<eof>", True
        if c == 9:
            k = r.choice([("(open-input-string %s)" % r.choice(['""', '"abc"']), "#<iport mb UTF-8 string>"), ("(open-output-string)", "#<oport mb UTF-8 string>"),
                          ('(open-output-file "r04o")', "#<oport mb UTF-8 file r04o>"), ('(open-input-file "r04i")', "#<iport mb UTF-8 file r04i>"),
                          ('(let ((p (open-input-file "r04i"))) (read-char p) (close-input-port p) p)', "#<iport closed>"),
                          ('(let ((p (open-output-file "r04o"))) (display 1 p) (close-output-port p) p)', "#<oport closed>"),
                          ('(let ((p (open-input-string "x"))) (close-input-port p) p)', "#<iport closed>"),
                          ('(let ((p (open-output-string))) (close-output-port p) p)', "#<oport closed>"),
                          ("in0", "#<iport mb UTF-8 file stdin>")])
            return k[0], k[1], k[1], True
        if c == 10:
            return r.choice(["(call-with-current-continuation (lambda (k) k))", "(call-with-current-continuation (lambda (k) (dynamic-wind list (lambda () k) list)))"]), "#<continuation 0x>", "#<continuation 0x>", True
        return self.leaf()

    def builtin(self):
        """an error the interpreter itself signals about an object; the object as it must be shown, or None"""
        r = self.r
        if r.random() < 0.2:
            n = r.choice(["unbound-%d" % r.randrange(99), "x%d?" % r.randrange(99)])
            return n, n
        x = self.node(r.choice([0, 0, 1, 2]))
        k = r.choice(["(vector-length %s)", "(symbol->string %s)", "(char->integer %s)", "(string-length %s)", "(+ 1 %s)", "(%s 1)", "(vector-ref (vector 1) %s)", "(apply list 1 %s)"])
        t = x[1]
        if ("vector" in k and t.startswith("#(")) or (k[1] == "s" and re.match("[^#(0-9]|-", t)) or ("char" in k and t.startswith("#\\")) or (t.startswith("#<") and "%s 1" in k) or (
                t == "()" and "apply" in k) or (t[0] in "(+-0123456789" and k[1] in "+va(%") or (t.startswith("#<") and k[1] == "a"):
            return None
        return k % x[0], t

    def node(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.25:
            return self.leaf()
        k = [self.node(d - 1) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
        un = any(x[3] for x in k)
        c = r.random()
        if c < 0.4:
            return ("(list %s)" % " ".join(x[0] for x in k),) + tuple("(%s)" % " ".join(x[i] for x in k) for i in (1, 2)) + (un,)
        if c < 0.6:
            return ("(vector %s)" % " ".join(x[0] for x in k),) + tuple("#(%s)" % " ".join(x[i] for x in k) for i in (1, 2)) + (un,)
        if c < 0.75:
            # a tail that is no list (an error object is represented by one)
            while True:
                z = self.leaf()
                if z[1][0] != "(" and not z[1].startswith("#<error") and len(k):
                    break
                if not k:
                    return z
            return ("(append (list %s) %s)" % (" ".join(x[0] for x in k), z[0]),) + tuple("(%s . %s)" % (" ".join(x[i] for x in k), z[i]) for i in (1, 2)) + (un or z[3],)
        # an error object: its reason, and what is written of its other objects in either mode
        z = self.node(r.choice([0, 0, d - 1])) if r.random() < 0.3 else None
        if z is None:
            s = "".join(chr(x) for x in self.g.string()[1] if 32 <= x < 127)
            s = ("s", [ord(x) for x in s])
            t = lambda x: "".join(map(chr, x))
            z = dgen.expr(s), t(dgen.show(s)), t(dgen.show(s, True)), False
        irr = "".join(" " + x[1] for x in k)
        return "(caught (lambda () (error %s)))" % " ".join([z[0]] + [x[0] for x in k]), "#<error %s%s>" % (z[1], irr), "%s%s" % (z[2], irr), True


def lit(s):
    return "".join(map(chr, dgen.wstring([ord(c) for c in s])))


def strip(s):
    return re.sub(r"0x[0-9a-f]*", "0x", s)


def gen(r, n):
    out = []
    while len(out) < n:
        g = Gen(r)
        e, w, d, un = g.node(r.choice([0, 1, 1, 2, 3]))
        if len(w) > 2500:
            continue
        if r.random() < 0.1:
            out.append(("(by-file %s)" % e, lit(strip(w + d))))
        else:
            # an error object that prints no #< within a datum mode is still refused by the reader: it always starts #<error
            out.append(("(go %s)" % e, "(%s %s #t #t #t #t #t %s)" % (lit(strip(w)), lit(strip(d)), "err" if un else "read")))
    return out


def generr(r, n):
    out = []
    while len(out) < n:
        x = Gen(r).builtin()
        if x and len(x[1]) < 2000:
            out.append(("(ends (caught (lambda () %s)) %s)" % (x[0], lit(" " + strip(x[1]))), "(#t #t #t)"))
    return out


FIXED = r"""
(list (wr kar) (wr car)) ==> #t
(wr own) ==> "#<closure ((a . b) (list a b))>"
(let ((car cdr)) (wr car)) ==> "#<subr cdr>"
(map wr (list cadr set-car! list-tail)) ==> ("#<subr cadr>" "#<subr set-car!>" "#<subr list-tail>")
(guard (e (#t (ds e))) (raise (caught (lambda () (error "a" 1 "b" #\c))))) ==> "a 1 \"b\" #\\c"
(guard (e (#t 'err)) (let ((p (open-output-string))) (close-output-port p) (write 1 p))) ==> err
(ends (caught (lambda () (let ((p (open-output-string))) (close-output-port p) (write 1 p)))) " #<oport closed>") ==> (#t #t #t)
(ends (caught (lambda () (let ((p (open-input-string "x"))) (close-input-port p) (read-char p)))) " #<iport closed>") ==> (#t #t #t)
(ends (caught (lambda () (list mm4))) " #<syntactic closure ((x . y) (cons x y))>") ==> (#t #t #t)
(ends (caught (lambda () (let ((a if)) a))) " #<syntax if>") ==> (#t #t #t)
(ends (caught (lambda () (vector 1 2 lambda))) " #<syntax lambda>") ==> (#t #t #t)
(ends (caught (lambda () (if let* 1 2))) " #<syntax let*>") ==> (#t #t #t)
(guard (e (#t 'err)) (write 1 in0)) ==> err
(rd "#<eof>") ==> err
(rd "#<undef>") ==> err
(rd "(1 #<subr car>)") ==> err
(rd "#(#<closure (() 1)>)") ==> err
(list (rd "(1 \"#<eof>\")") (rd "#\\#")) ==> (read read)
"""
PORTS = ['(with-char-codec "%s" (lambda () (let ((i (open-input-string "a")) (o (open-output-string)) (f (open-output-file "r04c"))) (%%%%set-current-char-codec! "UTF-8") (list (wr i) (wr o) (wr f) (ds (list i))))))' % n
         for n in codec.NAMES]


def run(ctx):
    ctx.rule = ("random structures with procedures, closures, continuations, ports, errors, end-of-file and undefined objects in them, "
                "written, displayed, formatted, written with labels and to a file; compared with the text a model builds, with themselves "
                "and with the reader's refusal; distinct by expression")
    ctx.assume = ["addresses in the text are not judged", "the text is that of the current implementation's documented notations (#<subr NAME>, #<closure (FORMALS BODY ...)>, #<error REASON OBJECT ...>, ...)"]
    pre = PRE + '(define in0 (current-input-port))(call-with-output-file "r04i" (lambda (p) (display "xyz" p)))'
    for lay in ("compact", "fatty"):
        items = common.par(gen, ctx.n(6000, 150000), "%s/%d/%s" % (ctx.prop, ctx.seed, lay))
        common.bulk(ctx, "san-" + lay, items, pre, "objects-" + lay, per=6)
        common.bulk(ctx, "opt-" + lay, items[::3], pre, "objects-" + lay, per=6)
        common.bulk(ctx, "san-" + lay, items[:600 if not ctx.thorough else 10000], pre, "objects-gc-" + lay, per=6,
                    env={"VF_GC_INTERVAL": 53, "VF_GC_SEED": ctx.seed})
        common.bulk(ctx, "san-" + lay, common.par(generr, ctx.n(1500, 30000), "%s/%d/e%s" % (ctx.prop, ctx.seed, lay)), pre, "builtin-errors-" + lay, per=6)
        cs = []
        for l in FIXED.strip().split("\n"):
            e, w = l.rsplit(" ==> ", 1)
            if w == "#t":
                # either name of one object may be shown
                cs.append(Case(e, lambda res: None if res.kind == "ok" and re.match(r'\(("#<subr k?[ck]ar>") \1\)$', res.text) else "expected the same name twice", "fixed-" + lay))
            else:
                cs.append(Case(e, ("ok", w), "fixed-" + lay))
        # the name shown is a name of the object
        for n in sorted(set(x[0] for x in e04.parse())):
            if n in e04.SRFI1:
                continue
            # those written in Scheme are closures
            cs.append(Case("(let ((s (wr %s))) (or (string=? (substring s 0 4) \"#<cl\") (and (string=? (substring s 0 7) \"#<subr \") "
                           "(eq? %s (eval (string->symbol (substring s 7 (- (string-length s) 1))) (interaction-environment))))))" % (n, n), ("ok", "#t"), "name-" + lay))
        for n, e in zip(codec.NAMES, PORTS):
            kind = "mb"
            e = e.replace("%%%%", "%%")
            cs.append(Case(e, ("ok", '("#<iport %s %s string>" "#<oport %s %s string>" "#<oport %s %s file r04c>" "(#<iport %s %s string>)")' % ((kind, n) * 4)), "ports-" + lay))
        ctx.run("san-" + lay, cs, pre + e04.PRE)
    ctx.minimum = 8000
