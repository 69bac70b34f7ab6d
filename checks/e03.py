"""E03: malformed special forms are rejected and change nothing."""
import re

from checks import common
from vlib import progen
from vlib.check import Case

# forms that have to be refused wherever an expression may stand
EXPR = r"""
(if)
(if 1)
(if 1 2 3 4)
(if #f 2 3 4)
(if . 1)
(if 1 . 2)
(if 1 2 . 3)
(if #f 2 . 3)
(if 1 2 3 . 4)
(if #f 2 3 . 4)
(lambda)
(lambda (x))
(lambda x)
(lambda (x) . 1)
((lambda (x) 1 . 2) 1)
((lambda () . 2))
(lambda (1) 1)
(lambda (x . 1) 1)
(lambda (x 1) 1)
(lambda (x "y") 1)
(lambda "a" 1)
(lambda 1 1)
(lambda #t 1)
(lambda #\a 1)
(lambda ((x)) 1)
(lambda (x (y)) 1)
(lambda #(x) 1)
(let)
(let ((x 1)))
(let ((x 1)) . 1)
(let ((x 1)) 1 . 2)
(let (x) 1)
(let ((x)) 1)
(let ((x 1 2)) 1)
(let ((x . 1)) 1)
(let ((x 1) . y) 1)
(let ((x 1) . 5) 1)
(let ((x 1 . 2)) 1)
(let ((x 1) (x 2)) 1)
(let ((x 1) (y 3) (x 2)) 1)
(let ((1 1)) 1)
(let (("x" 1)) 1)
(let (((x) 1)) 1)
(let ((y 2) (#\a 1)) 1)
(let x)
(let x 1)
(let x ())
(let x ((y 1)))
(let x ((y 1) (y 2)) y)
(let x ((y)) y)
(let x ((y 1 2)) y)
(let x ((1 2)) y)
(let x ((y 1) . z) y)
(let x ((y 1)) . 5)
(let 5 ((y 1)) y)
(let "x" ((y 1)) y)
(let . 1)
(let #((x 1)) 1)
(let ((x 1) ()) 1)
(let ((x 1) 5) 1)
(let*)
(let* ((x 1)))
(let* ((x)) 1)
(let* ((x 1 2)) 1)
(let* ((x . 1)) 1)
(let* ((1 1)) 1)
(let* ((x 1) ("y" 2)) 1)
(let* ((x 1) . y) 1)
(let* x 1)
(let* ((x 1)) . 1)
(let* ((x 1)) 1 . 2)
(let* (x) 1)
(letrec)
(letrec ((x 1)))
(letrec ((x)) 1)
(letrec ((x 1 2)) 1)
(letrec ((x . 1)) 1)
(letrec ((x 1) (x 2)) 1)
(letrec ((1 1)) 1)
(letrec ((x 1) . y) 1)
(letrec x 1)
(letrec (x) 1)
(letrec ((x 1)) . 1)
(letrec ((x 1)) 1 . 2)
(set!)
(set! q1)
(set! q1 1 2)
(set! 1 2)
(set! "x" 2)
(set! (car q1) 2)
(set! (q1) 2)
(set! #t 2)
(set! q-unbound 1)
(set! . q1)
(set! q1 . 1)
(set! q1 1 . 2)
(quote)
(quote 1 2)
(quote . 1)
(quote 1 . 2)
(begin . 1)
(begin 1 . 2)
(begin 1 2 . 3)
(cond)
(cond 1)
(cond ())
(cond #t)
(cond "a" (else 1))
(cond (#f) . 1)
(cond (#f 1) 5)
(cond (#f 1) (#f 2) . 5)
(cond (1 . 2))
(cond (1 2 . 3))
(cond (1 =>))
(cond (1 => car cdr))
(cond (1 => 5))
(cond (1 => . car))
(cond (1 => q1))
(cond (else))
(cond (else . 1))
(cond (else 1 . 2))
(cond (else 1) (#t 2))
(cond (else 1) (else 2))
(cond (else 1) . 5)
(case)
(case 1)
(case 1 2)
(case 1 ())
(case 1 "a")
(case 1 ((2) 1) 5)
(case 1 (1 2))
(case 1 (a 2))
(case 1 ((1)))
(case 1 ((1) . 2))
(case 1 ((1) 2 . 3))
(case 1 (else))
(case 1 (else . 1))
(case 1 (else 1) ((1) 2))
(case 1 (else 1) (else 2))
(case 1 ((2) 3) . 5)
(case . 1)
(case 1 . 2)
(and . 1)
(and 1 . 2)
(and 1 2 . 3)
(or . 1)
(or #f . 2)
(or #f #f . 2)
(and #f . 2)
(and 1 #f . 2)
(and #f 1 . 2)
(or 1 . 2)
(or #f 1 . 2)
(or 1 2 . 3)
(do)
(do ())
(do () ())
(do () . 1)
(do 1 (#t))
(do (1) (#t))
(do (i) (#t))
(do ((i)) (#t))
(do ((i 0 1 2)) (#t))
(do ((i . 0)) (#t))
(do ((i 0 . 1)) (#t))
(do ((1 0)) (#t))
(do (("i" 0)) (#t))
(do ((i 0) (i 1)) (#t i))
(do ((i 0) . j) (#t))
(do ((i 0)) #t)
(do ((i 0)) 5 6)
(do ((i 0)) (#t . 1))
(do ((i 0)) (#t 1 . 2))
(do ((i 0 1)) ((= i 1)) . 1)
(do ((i 0 1)) ((= i 1)) 1 . 2)
(delay)
(delay 1 2)
(delay . 1)
(delay 1 . 2)
(quasiquote)
(quasiquote 1 2)
(quasiquote . 1)
(quasiquote 1 . 2)
(unquote q1)
(unquote-splicing q1)
(guard)
(guard (e))
(guard e 1)
(guard () 1)
(guard (e (#t 1)))
(guard (e (#t 1)) . 1)
(guard "e" 1)
(receive)
(receive (a) 1)
(receive (a))
(receive (1) 1 1)
(receive ("a" . b) (values 1 2) 1)
(receive (a . 5) (values 1 2) 1)
(receive 5 (values 1 2) 1)
(receive (a) 1 . 2)
(and-let*)
(and-let* 1 2)
(and-let* x 2)
(and-let* ((x 1 2)) 2)
(and-let* ((1 2)) 2)
(and-let* (("x" 2)) 2)
(and-let* ((x 1) . 5) 2)
(and-let* ((x . 1)) 2)
(and-let* ((x 1)) . 2)
(cond-expand)
(cond-expand 1)
(cond-expand (q-nosuch 1))
(cond-expand ((q-bar foo) 1))
(cond-expand ((not) 1))
(cond-expand ((not srfi-0 srfi-2) 1))
(let () (define x 1))
(let () (define x 1) (define y 2))
(let () (define (f) 1))
(let () 1 (define x 2) x)
(let () (define x 1) x (define y 2) y)
(if #t (define q1 7))
(if #f 1 (define q1 7))
(let ((x 1)) (if x (define q1 7)) 2)
((lambda (x) (define y 1)) 1)
((lambda (x) 5 (define q1 1) x) 1)
(and 1 (define q1 2))
(or #f (define q1 2))
(cond (#t (define q1 2)))
(cond (else (define q1 2)))
(case 1 ((1) (define q1 2)))
(list (define q1 2))
(car (define q1 2))
((define q1 2))
(let ((x (define q1 2))) 1)
(let* ((x (define q1 2))) 1)
(letrec ((x (define q1 2))) 1)
(set! q1 (define q2 2))
(let () (define x (define y 1)) 1)
(let () (define) 1)
(let () (define x) 1)
(let () (define x 1 2) 1)
(let () (define 1 2) 1)
(let () (define (1) 2) 1)
(let () (define (f 1) 2) 1)
(let () (define (f)) 1)
(let () (define (f . 1) 2) 1)
(let () (define "x" 2) 1)
(let () (define x . 2) 1)
(let () (define x 2 . 3) 1)
(let () (begin (define x 2) 3) x)
(do ((i 0 (+ i 1))) ((= i 1)) (define q1 2))
(when-undefined #t 1)
(q-unbound)
q-unbound
(list q-unbound)
if
(list if)
(let ((x if)) 1)
(let* ((x if)) 1)
(letrec ((x if)) 1)
(set! q1 if)
(car if)
(eq? if if)
(if lambda 1 2)
(if #t quote 2)
(if #f 1 define)
(begin if)
(begin if 1)
(let () if)
(let () if 1)
((lambda () if))
((lambda (x) x) if)
(cond (if 1))
(cond (#t if))
(cond (if))
(cond (1 => if))
(case if ((1) 2))
(case 1 ((1) if))
(case 1 ((2) 3) (else let))
(and if)
(and 1 if)
(and if 1)
(or if)
(or #f if)
(or if 1)
(do ((i if)) (#t 1))
(do ((i 0)) (#t if))
(apply if '(1 2))
(apply quote '(1))
(map if '(1))
(for-each lambda '(1))
(force (delay if))
(vector 1 cond)
(call-with-current-continuation if)
(values if)
(let loop ((i if)) 1)
(call-with-values if list)
(with-exception-handler if (lambda () 1))
(dynamic-wind if (lambda () 1) (lambda () 1))
(and-let* ((x if)) 1)
(string-append "a" set!)
define
else
=>
(else)
(=> 1)
(else 1)
(list else)
(eq? 1 quote)
(1 2)
("a" 1)
(#t)
(#\a 1)
(() 1)
('a 1)
((list 1) 2)
(#(1) 0)
(list . 1)
(list 1 . 2)
(list 1 2 . 3)
(car '(1) . 2)
(cons 1 2 . 3)
(+ 1 . 2)
((lambda (x) x) 1 . 2)
((lambda x x) 1 . 2)
((lambda (x . y) x) 1 . 2)
(let loop ((i 0)) . i)
(let loop ((i 0)) (if (= i 1) i (loop 1 . 2)))
(let-optionals* '() (a 1) 2)
(let-optionals* '() ((1 2)) a)
(eval)
(apply)
(define-record-type-x 1 2)
""".strip().split("\n")

# top-level definition forms; checked through eval in the global environment
DEF = r"""
(define)
(define q1)
(define 1 2)
(define q1 1 2)
(define q1 1 . 2)
(define "x" 1)
(define (q1))
(define (1 x) 1)
(define (q1 1) 1)
(define (q1 x 1) 1)
(define (q1 . 1) 1)
(define (q1 x . "y") 1)
(define (q1 x) . 1)
(define q1 . 1)
(define . q1)
(define ((q1 x) y) 1)
(define #(q1) 1)
(define (q1 (x)) 1)
(define q1 if)
(define q1 define)
(define q1 q-unbound)
(define q1 (if))
(define-macro)
(define-macro q1)
(define-macro q1 5)
(define-macro q1 car)
(define-macro q1 "x")
(define-macro q1 'x)
(define-macro (q1))
(define-macro 1 (lambda () 1))
(define-macro (1 x) 1)
(define-macro (q1 1) 1)
(define-macro "x" (lambda () 1))
(define-record-type)
(define-record-type q1)
(define-record-type q1 (q2))
(define-record-type 1 (q1) q2)
(define-record-type q1 5 q2 (x q3))
(define-record-type q1 (q2 x) 5 (x q3))
(define-record-type "q1" (q2 x) q3 (x q4))
(begin (define q1 1 2))
(begin 1 . 2)
(if #t (define q1 5))
(let ((x 1)) (define q1 x))
(cond (#t (define q1 5)))
(and (define q1 5))
(begin (if #t (define q1 5)))
(require-extension (q-nosuch 1))
(require-extension (srfi 99999))
""".strip().split("\n")

CTX = ["%", "(let ((a 1)) %)", "((lambda (a) %) 1)", "(list 1 %)", "(if #t % 2)", "(begin 1 %)",
       "(let ((a %)) a)", "(cond (#f 1) (else %))", "(and 1 %)", "(or #f % 2)", "(case 1 ((1) %))",
       "(let loop ((i 0)) (if (< i 2) (loop (+ i 1)) %))", "(do ((i 0 (+ i 1))) ((= i 2) %))",
       "(letrec ((f (lambda () %))) (f))", "(force (delay %))", "(apply (lambda () %) '())",
       "(call-with-current-continuation (lambda (k) %))", "(map (lambda (x) %) '(1))",
       "(eval '% (interaction-environment))", "`(1 ,%)", "(receive a % a)", "(let* ((a 1) (b %)) b)",
       "(dynamic-wind (lambda () 1) (lambda () %) (lambda () 2))", "(vector %)", "((lambda x %) 1)"]

PASSES = {"(receive a % a)", "`(1 ,%)", "(map (lambda (x) %) '(1))", "(eval '% (interaction-environment))"}
KEYWORD = set(f for f in EXPR if f in ("if", "define", "(if #t quote 2)", "(if #f 1 define)", "(let () if)") or re.search(r"[ (](if|let|quote|define)\)+$", f))

GLOB = "(define q1 'q1v)(define q2 'q2v)"
STATE = "(list q1 q2 (map (lambda (n) (symbol-bound? n)) '(q-unbound q3 q4)))"
SAME = "(q1v q2v (#f #f #f))"


class Planter(progen.Gen):
    """Random programs with one kind of leaf that must fail."""

    def int(self, sc, d=6):
        if self.r.random() < 0.05 and self.nbad < 3:
            self.nbad += 1
            return "(%%bad%% %d)" % self.nbad
        return progen.Gen.int(self, sc, d)


def planted(rng, n):
    out = []
    tries = 0
    while len(out) < n and tries < 30 * n:
        tries += 1
        g = Planter(rng, (), 0.0, rng.randint(10, 60))
        g.nbad = 0
        t = g.any({}, 6)
        if not g.nbad or len(t) > 4000:
            continue
        r = common.expect(t)
        if r is None or "#<" in r[1] + r[2]:
            continue
        if r[0] == "ok" and rng.random() < 0.7:
            continue
        for k in range(g.nbad):
            t = t.replace("(%%bad%% %d)" % (k + 1), rng.choice(PLANT))
        out.append((t, r[0], r[1], r[2]))
    return out


# malformed leaves that mean the same whatever is bound around them
PLANT = [f for f in EXPR if "q1" not in f and "q-unbound" not in f and "else" not in f and "=>" not in f
         and not any(" %s" % v in f or "(%s" % v in f for v in ("x)", "x ", "y)", "i)", "a)", "e)")) and f[0] == "("
         and f not in KEYWORD and not re.search(r"\b(if|let|define|quote|lambda|cond)\b(?!\*)", f[1:].partition(" ")[2])]


def run(ctx):
    ctx.rule = ("every malformed shape of a table, in many evaluation contexts, and planted into random programs: it "
                "must signal an error when evaluated, print nothing beyond what the reference interpreter says was "
                "evaluated before it, and leave the bindings as they were")
    ctx.assume = ["forms the interpreter checks lazily are only required to fail when evaluation reaches the malformed "
                  "part; duplicate parameters of lambda and receive are not checked by design"]
    cases = []
    forms = [(f, c) for f in EXPR for c in CTX]
    for f, c in forms:
        # an operand evaluated in the global environment may define (not checked by design)
        if c == CTX[18] and re.search(r"\(define q", f):
            continue
        # a keyword that is merely returned is refused only where it is used
        if f in KEYWORD and c in PASSES:
            continue
        body = c.replace("%", f)
        cases.append(Case(body, ("err", None, ""), "table"))
    if not ctx.thorough:
        head = [c for c in cases if c.body in set(EXPR)]
        rest = [c for c in cases if c.body not in set(EXPR)]
        cases = head + ctx.rng.sample(rest, 5000)
    # after each batch-like stretch the globals still hold
    out = []
    for i, c in enumerate(cases):
        out.append(c)
        if i % 25 == 24:
            out.append(Case(STATE, ("ok", SAME), "state"))
    ctx.run("san-compact", out, common.PRE + "" + GLOB)
    if ctx.thorough:
        ctx.run("san-fatty", out, common.PRE + "" + GLOB)
    ctx.run("san-compact", common.one_value(["if", "define", "quote", "let-optionals*", "receive", "guard", "lambda", "(begin if)", "(let () set!)", "((lambda () and))",
                                             "(if #t let)", "(eval 'cond (interaction-environment))"]), common.PRE)
    # definitions: the error and the state observed together
    d = []
    for f in DEF:
        for w in ("(eval '%s (interaction-environment))", "(eval '(begin %s) (interaction-environment))"):
            e = w % f
            d.append(Case("(list (guard (e ((%%%%error-object? e) 'error) (else (list 'raised e))) %s) %s)" % (e, STATE),
                          ("ok", "(error %s)" % SAME), "definition"))
    for f in EXPR:
        if f in KEYWORD or re.search(r"\(define q", f):
            continue
        d.append(Case("(list (guard (e ((%%%%error-object? e) 'error) (else (list 'raised e))) "
                      "(eval '%s (interaction-environment))) %s)" % (f, STATE),
                      ("ok", "(error %s)" % SAME), "effect"))
    # a definition is refused inside expressions even if it looks like top level
    ctx.run("san-compact", d, common.PRE + "(use srfi-9)" + GLOB)
    pl = common.par(planted, ctx.n(2500, 30000), "%s/%d" % (ctx.prop, ctx.seed))
    ctx.run("san-compact", [Case(t, (k, v if k != "err" else None, o), "planted") for t, k, v, o in pl], common.PRE + "")
    # well-formed neighbours stay accepted
    ctx.run("san-compact", common.fixed(r"""
(if 1 2)
(if #f 2 3)
(lambda () 1) ==> #<closure (() 1)>
((lambda (x . y) y) 1)
(let () 1)
(let* () 1)
(letrec () 1)
(let x () 1)
(cond (#f 1) (1))
(cond (1 => (lambda (x) x)))
(case 1 ((2) 1) (else 2))
(case 'a ((a b) 1))
(case 1 (() 2) (else 3))
(and)
(or)
(do () (1))
(do ((i 0)) (#t))
(do ((i 0 1)) (#t 1 2))
(begin (define q5 1) q5) ==> error
(let () (define x 1) (begin (define y 2)) (define z 3) (list x y z))
(let () (begin) 1) ==> error
(delay 1) ==> (#<subr __promise-internal> . 1)
(guard (e (#t 1)) 2)
(guard (e) 2) ==> 2
(receive () (values) 1)
(and-let* () 1)
(let ((if list)) (if 1))
(let ((else #f)) (case 1 (else 1)))
((lambda (x) (define x 2) x) 1)
(quote ())
""".replace("(delay 1) ==> (#<subr __promise-internal> . 1)\n", "").replace(
        "(begin (define q5 1) q5) ==> error\n", "").replace("(let () (begin) 1) ==> error\n", ""), "accepted"), common.PRE + "" + GLOB)
    ctx.minimum = 3000
