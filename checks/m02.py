"""M02: garbage is reclaimed: per-iteration balance of cells, buffers and descriptors; capped heaps."""
import re

from checks import common, m03
from vlib import libgen, runner as R
from vlib.check import Case

MEASURE = r"""
(define (m02-gc) (vf-gc) (vf-gc))
(define (m02-live) (- (vf-stat 0) (vf-stat 6)))
(define (m02-clear n) (if (< 0 n) (let ((a (m02-clear (- n 1)))) (+ a 0)) 0))
(define (m02-loop f n) (if (< 0 n) (begin (guard (e (#t #f)) (let ((x (f))) #f)) (m02-loop f (- n 1))) #t))
(define (m02-run f warm n)
  (m02-loop f warm)
  (m02-clear 200) (m02-gc)
  (let* ((c0 (m02-live)) (b0 (vf-stat 3)) (d0 (vf-stat 5)))
    (m02-loop f n)
    (m02-clear 200) (m02-gc)
    (list (- (m02-live) c0) (- (vf-stat 3) b0) (- (vf-stat 5) d0))))
"""

# expressions that make garbage of every type; each is evaluated over and over
KINDS = r"""
(cons 1 2)
(list (list 1 2) (vector 3 4) "str" #\c)
(lambda (x) (lambda (y) (+ x y)))
((lambda (x) (lambda (y) (cons x y))) (make-vector 5 'a))
(make-string 100 #\a)
(string-append "abc" (make-string 20 #\あ))
(string-copy "日本語")
(substring "hello world" 2 7)
(let ((s (string-copy "abc"))) (string-set! s 1 #\日) (string-set! s 0 #\é) s)
(string-fill! (make-string 30 #\a) #\あ)
(list->string (map integer->char (iota 40 97)))
(string->list "a fairly long string")
(symbol->string 'abc)
(string->symbol "the-same-symbol")
(number->string 123456789 2)
(string->number "123456")
(make-vector 200 'x)
(vector 1 2 (vector 3 (make-string 10 #\a)))
(list->vector (iota 50))
(vector->list (make-vector 30 1))
(let ((v (make-vector 3 #f))) (vector-set! v 0 v) v)
(let ((p (list 1 2 3))) (set-cdr! (cddr p) p) p)
(let ((a (list 1)) (b (list 2))) (set-car! a b) (set-car! b a) a)
(open-input-string "some input text")
(let ((p (open-input-string "(a b \"c\" #(1 2))"))) (read p))
(let ((p (open-input-string "(a b \"c\" #(1 2) x"))) (read p))
(let ((p (open-input-string ")"))) (read p))
(let ((p (open-input-string "#\\nosuchname"))) (read p))
(let ((p (open-input-string "\"abc\\q\""))) (read p))
(let ((p (open-input-string "\"abc"))) (read p))
(let ((p (open-output-string))) (write '(a "b" #\c) p) (get-output-string p))
(let ((p (open-output-string))) (display (make-string 300 #\x) p) p)
(let ((p (open-output-string))) (write 'x p) (close-output-port p))
(let ((p (open-input-string "abc"))) (read-char p) (peek-char p) (close-input-port p) (read-char p))
(open-input-file "m02-in")
(let ((p (open-input-file "m02-in"))) (read p) p)
(let ((p (open-input-file "m02-in"))) (read-char p) (close-input-port p))
(let ((p (open-input-file "m02-in"))) (close-input-port p) (close-input-port p))
(let ((p (open-output-file "m02-out"))) (write '(x y) p) (newline p) p)
(let ((p (open-output-file "m02-out"))) (write '(x y) p) (close-output-port p))
(call-with-input-file "m02-in" (lambda (p) (read p)))
(call-with-input-file "m02-in" (lambda (p) (raise 'out)))
(call-with-output-file "m02-out" (lambda (p) (write 'a p)))
(call-with-output-file "m02-out" (lambda (p) (raise 'out)))
(with-input-from-file "m02-in" (lambda () (read)))
(with-input-from-file "m02-in" (lambda () (read-char) (raise 'out)))
(with-output-to-file "m02-out" (lambda () (display 'x)))
(with-output-to-file "m02-out" (lambda () (car 1)))
(call-with-current-continuation (lambda (k) (call-with-input-file "m02-in" (lambda (p) (k (read-char p))))))
(call-with-current-continuation (lambda (k) (with-output-to-file "m02-out" (lambda () (k 1)))))
(open-input-file "m02-nosuch")
(load "m02-load.scm")
(load "m02-err.scm")
(load "m02-read.scm")
(call-with-current-continuation (lambda (k) k))
(call-with-current-continuation (lambda (k) (k 1)))
(call-with-current-continuation (lambda (k) (for-each (lambda (x) (if (= x 3) (k x))) '(1 2 3 4))))
(call-with-current-continuation (lambda (k) (dynamic-wind (lambda () #f) (lambda () (k 1)) (lambda () #f))))
(dynamic-wind (lambda () #f) (lambda () (raise 'x)) (lambda () #f))
(dynamic-wind (lambda () (car 1)) (lambda () 1) (lambda () #f))
(let ((saved #f)) (call-with-current-continuation (lambda (k) (set! saved k))) (saved 1))
(guard (e (#t e)) (raise (list 1 2)))
(guard (e ((string? e) e)) (raise 'not-a-string))
(guard (e (#f 1)) (dynamic-wind (lambda () #f) (lambda () (raise 'x)) (lambda () #f)))
(with-exception-handler (lambda (e) 1) (lambda () (raise 'x)))
(with-exception-handler (lambda (e) 1) (lambda () 2))
(guard (e (#t #f)) (with-exception-handler (lambda (e) (raise (list e))) (lambda () (raise 'inner))))
(error "reason" (list 1 2) (make-vector 3 'x))
(car (list))
(undefined-variable-zz 1)
(vector-ref (vector 1 2) 9)
(delay (list 1 2))
(force (delay (list 1 2)))
(let ((p (delay (car 1)))) (force p))
(values 1 2 3)
(call-with-values (lambda () (values (list 1) (vector 2))) list)
(receive (a . r) (values 1 2 3) r)
(eval '(let ((x (list 1))) (cons x x)) (interaction-environment))
(eval '(lambda (x) x) (interaction-environment))
(eval '(if) (interaction-environment))
(define m02-var (list 1 2 3))
(begin (set! m02-cell (make-vector 20 (make-string 5 #\a))) 1)
(begin (set! m02-cell (open-input-file "m02-in")) 1)
(begin (set! m02-cell (call-with-current-continuation (lambda (k) k))) 1)
(begin (set! m02-cell (lambda () m02-cell)) 1)
(begin (set! m02-queue (append (if (< 10 (length m02-queue)) (cdr m02-queue) m02-queue) (list (make-string 4 #\q)))) 1)
(m02-mac 1 (list 2))
(let ((x 1)) (define (f) (if (< x 3) (begin (set! x (+ x 1)) (f)) (list x))) (f))
(letrec ((e? (lambda (n) (if (= n 0) #t (o? (- n 1))))) (o? (lambda (n) (if (= n 0) #f (e? (- n 1)))))) (e? 20))
(do ((i 0 (+ i 1)) (l '() (cons i l))) ((= i 20) l))
(let loop ((i 0)) (if (< i 50) (loop (+ i 1)) i))
`(1 ,(+ 1 1) ,@(list 3 4) #(a ,(list 5)))
(apply max (iota 20))
(map (lambda (x y) (cons x y)) '(1 2 3) '(a b c))
(for-each (lambda (x) (list x)) (iota 10))
(append (list 1 2) (list 3 4) '(5))
(reverse (iota 30))
(make-pt 1 (list 2))
(let ((p (make-pt 1 2))) (set-pt-x! p p) p)
(let ((h (make-hash-table equal? hash))) (for-each (lambda (k) (hash-table-set! h k (list k))) (iota 20)) (hash-table-ref h 5))
(let ((h (make-hash-table))) (hash-table-set! h 'a h) (hash-table-delete! h 'a) (hash-table->alist h))
(begin (hash-table-set! m02-table 'key (make-string 5 #\a)) (hash-table-delete! m02-table 'key))
(hash-table-update!/default m02-table 'count (lambda (x) (modulo (+ x 1) 7)) 0)
(sort (list 3 1 2) <)
(sort (vector 3 1 2) <)
(vector-map (lambda (i x) (* x x)) (vector 1 2 3))
(vector-append (vector 1 2) (vector 3))
(vector-copy (vector 1 2 3 4) 1 3)
(filter odd? (iota 30))
(fold cons '() (iota 20))
(unfold (lambda (x) (> x 10)) list (lambda (x) (+ x 1)) 0)
(delete-duplicates '(1 2 1 3 2))
(partition even? (iota 10))
(format "~a ~s ~8F ~x" '(1 "b") '(1 "b") 12 255)
(format "~q")
(format #f "~a~%" (make-string 60 #\z))
(let ((p (open-output-string))) (write-with-shared-structure (let ((x (list 1))) (list x x)) p) (get-output-string p))
(let ((p (open-output-string))) (write-with-shared-structure (let ((x (list 1 2))) (set-cdr! (cdr x) x) x) p))
(let-optionals* (list 1) ((a 0) (b (list a))) b)
(and-let* ((x (list 1)) ((pair? x)) (y (car x))) y)
(cond ((assv 2 '((1 . a) (2 . b))) => cdr) (else 'no))
(case (list 1) ((1) 2) (else => list))
(let* ((x 1) (y (list x))) (letrec ((f (lambda () y))) (f)))
(string->symbol (string-append "m02-" "sym"))
(with-char-codec "ISO-8859-1" (lambda () (string->list "abc")))
(with-char-codec "no such codec" (lambda () 1))
(string-map-over (lambda (c) c) "abc")
(require "m02-req.scm")
(use srfi-1)
(exit-not-defined)
(interaction-environment)
(scheme-report-environment 5)
(list-copy (iota 20))
(equal? (list 1 (vector 2 "x")) (list 1 (vector 2 "x")))
(char-upcase #\a)
(call-with-current-continuation (lambda (k) (with-exception-handler (lambda (e) (k e)) (lambda () (raise 'x)))))
(call-with-current-continuation (lambda (k) (with-exception-handler (lambda (e) (k e)) (lambda () (car 1)))))
"""

SETUP = r"""
(call-with-output-file "m02-in" (lambda (p) (write '(a "b" (c) #(1 2)) p) (newline p)))
(call-with-output-file "m02-load.scm" (lambda (p) (write '(define m02-loaded (list 1 "2" #(3))) p)))
(call-with-output-file "m02-err.scm" (lambda (p) (write '(define m02-loaded 2) p) (write '(car 1) p)))
(call-with-output-file "m02-read.scm" (lambda (p) (write '(define m02-loaded 2) p) (display "(1 2" p)))
(call-with-output-file "m02-req.scm" (lambda (p) (write '(define m02-req (list 1)) p)))
(define m02-cell #f) (define m02-queue '()) (define m02-table (make-hash-table equal? hash))
(define-macro m02-mac (lambda (a b) (list 'let (list (list 'm02x b)) (list 'cons a 'm02x))))
"""

# programs whose live data is small, run for a long time in a small heap
LONG = r"""
(let loop ((i 0) (l '())) (if (< i N) (loop (+ i 1) (cons i (if (pair? l) (if (pair? (cdr l)) '() l) l))) (length l)))
(let loop ((i 0)) (if (< i N) (begin (make-vector 10 i) (loop (+ i 1))) 'done))
(let loop ((i 0)) (if (< i N) (begin (make-string 20 #\a) (loop (+ i 1))) 'done))
(let loop ((i 0) (s "")) (if (< i N) (loop (+ i 1) (number->string i)) (string? s)))
(let loop ((i 0)) (if (< i N) (begin (set! m02-cell (let ((x i)) (lambda () (list x)))) (loop (+ i 1))) 'done))
(let loop ((i 0)) (if (< i N) (begin (set! m02-cell (let ((x i)) (delay (list x)))) (force m02-cell) (loop (+ i 1))) 'done))
(let loop ((i 0) (k #f)) (if (< i N) (loop (+ i 1) (call-with-current-continuation (lambda (k) k))) (procedure? k)))
(let ((v (make-vector 16 '()))) (let loop ((i 0)) (if (< i N) (begin (vector-set! v (modulo i 16) (list i (vector-ref v (modulo (+ i 1) 16)) )) (if (= 0 (modulo i 40)) (vector-fill! v '())) (loop (+ i 1))) 'done)))
(let loop ((i 0)) (if (< i N) (begin (open-input-string "abcdefgh") (loop (+ i 1))) 'done))
(let loop ((i 0)) (if (< i N) (begin (let ((p (open-output-string))) (write i p) p) (loop (+ i 1))) 'done))
(let loop ((i 0)) (if (< i N) (begin (guard (e (#t e)) (raise (list i))) (loop (+ i 1))) 'done))
(let loop ((i 0)) (if (< i N) (begin (guard (e (#t e)) (car i)) (loop (+ i 1))) 'done))
(let loop ((i 0)) (if (< i N) (begin (let ((a (list i)) (b (vector i))) (set-cdr! a b) (vector-set! b 0 a)) (loop (+ i 1))) 'done))
(let loop ((i 0)) (if (< i N) (begin (eval (list 'list i (list 'quote (list i))) (interaction-environment)) (loop (+ i 1))) 'done))
(let loop ((i 0)) (if (< i N) (begin (string-append (make-string 3 #\あ) "x") (string->list "abc") (loop (+ i 1))) 'done))
(let loop ((i 0)) (if (< i N) (begin (call-with-values (lambda () (values i (list i))) list) (loop (+ i 1))) 'done))
(let loop ((i 0)) (if (< i N) (begin (dynamic-wind (lambda () #f) (lambda () (list i)) (lambda () #f)) (loop (+ i 1))) 'done))
(let loop ((i 0)) (if (< i N) (begin (apply list (list i i i)) (map list '(1 2) '(3 4)) (loop (+ i 1))) 'done))
(do ((i 0 (+ i 1)) (q '() (cons i (list-copy (if (> (length q) 5) '() q))))) ((= i N) 'done))
(let loop ((i 0)) (if (< i N) (begin (read (open-input-string "(a (b \"c\") #(d) . e)")) (loop (+ i 1))) 'done))
(let loop ((i 0)) (if (< i N) (begin (m02-mac i (list i)) (loop (+ i 1))) 'done))
(let loop ((i 0)) (if (< i N) (begin (make-pt i (list i)) (loop (+ i 1))) 'done))
(let loop ((i 0)) (if (< i N) (begin (hash-table-set! m02-table (modulo i 10) (list i)) (loop (+ i 1))) 'done))
(letrec ((even (lambda (n) (if (= n 0) 'done (odd (- n 1))))) (odd (lambda (n) (if (= n 0) 'done (even (- n 1)))))) (even N))
(let loop ((i 0)) (cond ((< i N) (and #t (or #f (begin (list i) (let () (let* ((x i)) (loop (+ x 1)))))))) (else 'done)))
(let loop ((i 0)) (if (< i N) (apply loop (list (+ i 1))) 'done))
(let loop ((i 0)) (if (< i N) (call-with-values (lambda () (+ i 1)) loop) 'done))
(let loop ((i 0)) (if (< i N) (guard (e (#t #f)) (with-exception-handler (lambda (e) (list e)) (lambda () (list i))) (list i)) #f) (if (< i N) (loop (+ i 1)) 'done))
"""


def script(ctx, pre, e, warm, n):
    c = Case("(m02-run (lambda () %s) %d %d)" % (e, warm, n), ("any",), "balance")
    c.id = 1
    return ctx.script(pre, [c], {})


def balance(ctx, variant, tag, exprs, pre, per, batch=60, pres=None):
    """Cells, malloc'd blocks and descriptors held after `per` more evaluations.  A growth is
    reported only when ten times as many evaluations leave in proportion more behind."""
    def go(ids, n):
        return R.run_cases(variant, [(i, "(m02-run (lambda () %s) 30 %d)" % (e, n)) for i, e in ids], pre,
                           stats=ctx.stats, batch=batch if n == per else 4)
    ids = [(i + 1, e) for i, e in enumerate(exprs)]
    res = go(ids, per)
    sus = []
    lim = (max(40, per // 4), max(12, per // 8), 2)
    for i, e in ids:
        x = res[i]
        if x.kind == "skipped":
            ctx.skipped += 1
            continue
        ctx.kinds[x.kind] = ctx.kinds.get(x.kind, 0) + 1
        m = re.match(r"\((-?\d+) (-?\d+) (-?\d+)\)$", x.text)
        if x.kind != "ok" or not m:
            # an expression may print, but nothing else may end a measured run
            ctx.violation("%s:%s" % (tag, e[:60]), "%s %s: no measurement\n  in:  %s\n  got: %r" % (variant, tag, e[:1000], x), script(ctx, pre, e, 30, per))
            continue
        g = [int(v) for v in m.groups()]
        ctx.count(tag, e)
        ctx.extra["evaluations_measured"] = ctx.extra.get("evaluations_measured", 0) + per
        if any(a > l for a, l in zip(g, lim)):
            sus.append((i, e, g))
    for cid, x in res.items():
        if cid < 0:
            ctx.violation("finalise:" + x.msg[:80], "%s %s: %s" % (variant, tag, x.msg), pre)
    if ids:
        i, e = ctx.rng.choice(ids)
        ctx.sample("%s: %s x%d => growth (cells blocks descriptors) %r" % (tag, e[:300], per, res[i]))
    ctx.extra["growths_looked_at_again"] = ctx.extra.get("growths_looked_at_again", 0) + len(sus)
    big = go([(i, e) for i, e, g in sus], per * 10) if sus else {}
    for i, e, g in sus:
        x = big[i]
        m = re.match(r"\((-?\d+) (-?\d+) (-?\d+)\)$", x.text)
        h = [int(v) for v in m.groups()] if x.kind == "ok" and m else None
        if x.kind == "skipped":
            continue
        if h is None or any(b > l * 4 and b > 4 * a for a, b, l in zip(g, h, lim)) or (h[2] > 2):
            ctx.violation("%s:%s" % (tag, e[:60]),
                          "%s %s: evaluating this again and again keeps memory or descriptors (cells, blocks, descriptors)\n  in:  %s\n"
                          "  after %d: %s, after %d: %r" % (variant, tag, e[:1500], per, g, per * 10, x), script(ctx, pre, e, 30, per * 10))


def run(ctx):
    ctx.rule = ("an expression evaluated again and again: after two forced collections the live cells, the live malloc blocks (wrapped "
                "allocator) and the open descriptors must not have grown with the number of evaluations; plus long programs of bounded "
                "live data in a heap capped at a few thousand cells; distinct by expression text")
    ctx.assume = ["a conservative collector may keep a bounded amount of garbage: growth counts only if it is proportional to the evaluations",
                  "symbols are never reclaimed, so repeated expressions intern a fixed set of names"]
    pre = m03.PRE + SETUP + MEASURE
    kinds = [l for l in KINDS.strip().split("\n") if l]
    per = ctx.n(400, 2000)
    for v in ("san-compact", "opt-fatty") + (("opt-compact", "san-fatty", "san-hygienic") if ctx.thorough else ()):
        ks = [k for k in kinds if v != "san-hygienic" or not re.search(r"pt|hash|sort|m02-table", k)]
        if v == "san-hygienic":
            continue
        balance(ctx, v, "kinds", ks, pre, per, batch=6)
    # longer-lived mixtures: several kinds in one iteration
    r = ctx.rng
    mixes = []
    for _ in range(ctx.n(150, 3000)):
        ks = [k for k in r.sample(kinds, r.randint(2, 4)) if "define" not in k]
        mixes.append("(list %s)" % " ".join("(guard (e%% (#t 'err)) (list %s))" % k for k in ks))
    balance(ctx, "san-compact", "mixtures", mixes, pre, per // 4, batch=10)
    lib = [e for e in common.par(libgen.exprs, ctx.n(1600, 30000), "M02/%d/lib" % ctx.seed, 30) if "vf-" not in e]
    lpre = libgen.PRE + MEASURE
    balance(ctx, "opt-compact", "library", lib[::2], lpre, 150, batch=25)
    balance(ctx, "san-fatty", "library", lib[1::2], lpre, 120, batch=25)
    # capped heaps
    n = ctx.n(40000, 500000)
    longs = []
    for l in LONG.strip().split("\n"):
        want = "done" if "'done" in l else None
        body = re.sub(r"\bN\b", str(n), l)
        longs.append(Case(body, ("ok", want) if want else ("ok", "#t") if "length l" not in l else ("any",), "capped"))
    for v, env in (("opt-compact", {"VF_HEAP_SIZE": 40000, "VF_HEAPS_MAX": 1, "VF_THRESH": 1}),
                   ("opt-fatty", {"VF_HEAP_SIZE": 12000, "VF_HEAPS_MAX": 3, "VF_THRESH": 500}),
                   ("san-compact", {"VF_HEAP_SIZE": 9000, "VF_HEAPS_MAX": 4, "VF_THRESH": 1000})):
        ctx.run(v, longs, m03.PRE + SETUP, env=env, batch=2, cpu=120)
    ctx.minimum = 1500
