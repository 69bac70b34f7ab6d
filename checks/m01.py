"""M01: collections are invisible."""
import concurrent.futures
import os
import re

from checks import common, e04
from vlib import build as B, libgen, runner as R
from vlib.check import Case

OBJ = [("(list 1 \"two\" 'three)", "(1 \"two\" three)"), ("(vector 1 (list 2) \"s\")", "#(1 (2) \"s\")"),
       ("(string-append \"ab\" \"cé\")", "\"abcé\""), ("(string->symbol (string-append \"ge\" \"n1\"))", "gen1"),
       ("(cons (make-string 3 #\\a) (cons 1 2))", "(\"aaa\" 1 . 2)"), ("#\\x65e5", "#\\日"),
       ("(vector-ref (vector (list (list (list 'deep)))) 0)", "(((deep)))")]
POBJ = [("(let ((a (list 7 \"x\"))) (lambda () a))", "(%s)", "(7 \"x\")"),
        ("(let ((a (list 7 \"x\"))) (delay (cons 1 a)))", "(force %s)", "(1 7 \"x\")"),
        ("(let ((p (delay (list 5 \"y\")))) (force p) p)", "(force %s)", "(5 \"y\")"),
        ("(open-input-string (string-append \"ab\" \"(c d)\"))", "(let ((q %s)) (let* ((c1 (read-char q)) (c2 (peek-char q)) (c3 (read q)) (c4 (read q))) (list c1 c2 c3 c4)))", "(#\\a #\\b b (c d))"),
        ("(let ((p (open-output-string))) (write '(a \"b\") p) p)", "(get-output-string %s)", "\"(a \\\"b\\\")\""),
        ("(let ((h (make-hash-table equal? hash))) (hash-table-set! h (list 1) \"one\") h)", "(hash-table-ref/default %s '(1) 'lost)", "\"one\""),
        ("(make-pt (list 1) \"p\")", "(let ((q %s)) (list (pt-x q) (pt-y q) (pt? q)))", "((1) \"p\" #t)"),
        ("(let ((f (let ((z (list 'm))) (lambda (x) (list x z))))) f)", "(%s 9)", "(9 (m))"),
        ("(let ((c 0)) (lambda () (set! c (+ c 1)) (list c (make-string c #\\z))))", "(let ((q %s)) (q) (q))", "(2 \"zz\")")]

# $o: an object; $g: collect and overwrite; $u: the object's observation applied at the hole
HOLD = r"""
(let ((x $o)) $g x)
(let ((v (vector 1 $o 2))) $g (vector-ref v 1))
(let ((l (list 1 $o 2))) $g (cadr l))
(let ((f (let ((x $o)) (lambda () x)))) $g (f))
(let ((p (let ((x $o)) (delay (begin $g x))))) $g (force p))
(let ((p (delay $o))) (force p) $g (force p))
(begin (set! gl $o) $g gl)
(begin (eval '(define gv2 #f) (interaction-environment)) (set! gv2 $o) $g gv2)
(let* ((a 1) (x $o) (b (begin $g 2))) (let ((c (begin $g 3))) x))
(letrec ((x $o) (y (begin $g 1))) x)
(let () (define x $o) (define y (begin $g 1)) $g x)
(do ((i 0 (+ i 1)) (x $o x)) ((= i 3) x) $g)
(let loop ((i 0) (x $o)) (if (= i 3) x (begin $g (loop (+ i 1) x))))
((lambda (x . r) $g (car r)) 1 $o (begin $g 5))
((lambda r (begin $g (cadr r))) (begin $g 1) $o (begin $g 2))
(apply (lambda (a b) $g b) (list 1 $o))
(apply (lambda r $g (cadr r)) 1 (list $o 3))
(call-with-values (lambda () (values $o (begin $g 1) (begin $g 2))) (lambda (a b c) $g a))
(call-with-values (lambda () (values 1 $o)) (lambda r $g (cadr r)))
(receive (a . r) (values 1 $o (begin $g 2)) $g (car r))
(call-with-current-continuation (lambda (k) (let ((x $o)) $g (k x))))
(let ((r #f)) (dynamic-wind (let ((x $o)) (lambda () $g (set! r x))) (lambda () $g) (lambda () $g)) r)
(let ((r #f)) (dynamic-wind (lambda () $g) (lambda () $g) (let ((x $o)) (lambda () $g (set! r x)))) r)
(let ((r #f)) (call-with-current-continuation (lambda (k) (dynamic-wind (lambda () $g) (lambda () $g (k 1)) (let ((x $o)) (lambda () $g (set! r x)))))) r)
(guard (e (#t $g e)) (raise $o))
(guard (e (#t $g (car e))) (raise (list $o)))
(guard (e ((begin $g #f) 1) ((begin $g #t) $g e)) $g (raise $o))
(guard (o (#t $g o)) (guard (e ((begin $g #f) 1)) (raise $o)))
(guard (o (#t $g o)) (guard (e ((begin $g #f) 1)) (dynamic-wind (lambda () $g) (lambda () (raise $o)) (lambda () $g))))
(call-with-current-continuation (lambda (k) (with-exception-handler (let ((x $o)) (lambda (e) $g (k x))) (lambda () $g (raise 1)))))
(with-exception-handler (lambda (e) 1) (lambda () (let ((x $o)) $g x)))
(car (map (lambda (x y) $g x) (list $o 2) (list 3 4)))
(let ((r #f)) (for-each (lambda (x) $g (if (not r) (set! r x))) (list $o 2 3)) r)
(cadr `(1 ,$o ,(begin $g 2) ,@(begin $g (list 3 4))))
(vector-ref `#(,$o ,(begin $g 2) ,@(begin $g (list 3 4))) 0)
(cadr `(,@(list 1 $o) ,@(begin $g '()) . ,(begin $g 2)))
(vector-ref (list->vector (list $o 1)) 0)
(car (vector->list (vector $o 1)))
(car (append (list $o) (begin $g (list 1))))
(cond ($o => (lambda (x) $g x)))
(cond ((begin $g #f) 1) ((let ((x $o)) $g x)))
(or (begin $g #f) $o (begin $g 1))
(and (begin $g 1) (let ((x $o)) $g x))
(case (begin $g 'a) ((b) 1) ((a) (let ((x $o)) $g x)))
(begin (mdef-set! $o) $g (mdef-get))
(let ((v (make-vector 3 $o))) $g (vector-ref v 2))
(let ((v (vector 1 2))) (vector-fill! v $o) $g (vector-ref v 1))
(let ((l (list 1 2))) (set-car! (cdr l) $o) $g (cadr l))
(let ((l (list 1 2))) (set-cdr! l (list $o)) $g (cadr l))
(cdr (assq 'k (let ((a (list (cons 'j 1) (cons 'k $o)))) $g a)))
(fold (lambda (x a) $g x) 0 (list 1 $o))
(eval (list 'begin '$g (list 'quote $o)) (interaction-environment))
(let ((e (let ((zz $o)) (%%current-environment)))) $g (eval 'zz e))
(let-optionals* (list $o) ((a 1) (b (begin $g 2))) $g a)
(let-optionals* '() ((a $o) (b (begin $g 2))) $g a)
(and-let* ((x $o) ((begin $g #t))) $g x)
(let ((h (make-hash-table equal? hash))) (hash-table-set! h 'k $o) $g (hash-table-ref h 'k (lambda () 'lost)))
(let ((q (make-pt 1 $o))) $g (pt-y q))
(let ((k2 #f) (x $o)) (call-with-current-continuation (lambda (k) (set! k2 (vector k x)))) $g (vector-ref k2 1))
(with-char-codec "UTF-8" (lambda () (let ((x $o)) $g x)))
(car (sort (list $o) (lambda (a b) $g #f)))
"""

PRE = libgen.PRE + r"""
(define gl #f)
(define junk (lambda (n) (if (> n 0) (begin (list n (make-string 3 #\j) (vector n n)) (junk (- n 1))))))
(define $gc (lambda () (vf-gc) (junk 40) (vf-gc) #t))
(define mdef-get #f) (define mdef-set! #f)
(let ((cell #f)) (set! mdef-get (lambda () cell)) (set! mdef-set! (lambda (x) (set! cell x))))
(define-macro mkeep (lambda (x) (list 'cons x ''(1 "kept" #\k))))
"""

SCRIPT = r"""
(string-length (get-output-string (let ((p (open-output-string))) (let loop ((i 0)) (if (< i 400) (begin (write (list i "é" 'sym) p) (loop (+ i 1))))) p))) ==> 5090
(let ((p (open-input-string (apply string-append (map (lambda (i) (string-append "(a" (number->string i) " . #(\"s\" #\\x)) ")) (iota 200)))))) (let loop ((n 0) (x (read p)) (l #f)) (if (eof-object? x) (list n l) (loop (+ n 1) (read p) x)))) ==> (200 (a199 . #("s" #\x)))
(let loop ((i 0) (l '())) (if (< i 300) (loop (+ i 1) (cons (string->symbol (string-append "dyn" (number->string i))) l)) (let ((l (reverse l))) (and (every (lambda (s i) (eq? s (string->symbol (string-append "dyn" (number->string i))))) l (iota 300)) (symbol->string (list-ref l 299)))))) ==> "dyn299"
(letrec ((deep (lambda (n) (if (= n 0) '() (let ((x (list n (number->string n)))) (cons x (deep (- n 1)))))))) (let ((l (deep 300))) (list (length l) (car l) (list-ref l 299)))) ==> (300 (300 "300") (1 "1"))
(letrec ((tree (lambda (d) (if (= d 0) (string-copy "leaf") (cons (tree (- d 1)) (vector (tree (- d 1))))))) (cnt (lambda (t) (cond ((pair? t) (+ (cnt (car t)) (cnt (cdr t)))) ((vector? t) (cnt (vector-ref t 0))) ((equal? t "leaf") 1) (else -10000))))) (cnt (tree 8))) ==> 256
(let ((h (make-hash-table equal? hash))) (let loop ((i 0)) (if (< i 150) (begin (hash-table-set! h (list i (number->string i)) (make-string 2 #\v)) (loop (+ i 1))))) (list (length (hash-table-keys h)) (hash-table-ref/default h '(77 "77") #f) (hash-table-ref/default h '(149 "149") #f))) ==> (150 "vv" "vv")
(let ((v (make-vector 200 #f))) (let loop ((i 0)) (if (< i 200) (begin (vector-set! v i (lambda () (list i (number->string (* i i))))) (loop (+ i 1))))) (map (lambda (i) ((vector-ref v i))) '(0 100 199))) ==> ((0 "0") (100 "10000") (199 "39601"))
(let loop ((i 0) (k '())) (if (< i 60) (loop (+ i 1) (call-with-current-continuation (lambda (c) (if (odd? i) (c (cons i k)) (cons (list i) k))))) (length k))) ==> 60
(call-with-values (lambda () (apply values (iota 300))) (lambda l (apply + l))) ==> 44850
(let loop ((i 0) (a 0)) (if (< i 100) (loop (+ i 1) (+ a (guard (e ((string? e) (string-length e)) ((symbol? e) 1)) (raise (if (odd? i) (make-string 3 #\x) (string->symbol (number->string i))))))) a)) ==> 200
(begin (let loop ((i 0)) (if (< i 60) (begin (eval (list 'define (string->symbol (string-append "gdef" (number->string i))) (list 'lambda '(x) (list 'list i 'x (number->string i)))) (interaction-environment)) (loop (+ i 1))))) (list (gdef0 1) (gdef59 2))) ==> ((0 1 "0") (59 2 "59"))
(list (mkeep 1) (mkeep 2)) ==> ((1 1 "kept" #\k) (2 1 "kept" #\k))
(begin (call-with-output-file "gctest.scm" (lambda (p) (let loop ((i 0)) (if (< i 80) (begin (write (list 'set! 'gl (list 'cons i (list 'list (number->string i) 'gl))) p) (newline p) (loop (+ i 1))))))) (set! gl '()) (load "gctest.scm") (list (car gl) (cadr gl))) ==> (79 "79")
(begin (call-with-output-file "gctest2.txt" (lambda (p) (write '(line "one" #\1) p) (write-char #\newline p) (display "second é" p))) (let ((r (call-with-input-file "gctest2.txt" (lambda (p) (let* ((a (read p)) (b (read-char p)) (c (read-char p)) (d (read p)) (e (read p)) (f (read p))) (list a b c d e (eof-object? f))))))) r)) ==> ((line "one" #\1) #\newline #\s econd é #t)
(begin (call-with-output-file "gctest3.txt" (lambda (p) (display "(x y z) w" p))) (with-input-from-file "gctest3.txt" (lambda () (vf-gc) (let ((a (read))) (vf-gc) (list a (read)))))) ==> ((x y z) w)
(begin (with-output-to-file "gctest4.txt" (lambda () (vf-gc) (write '(o "p")) (vf-gc) (write 'q))) (with-input-from-file "gctest4.txt" (lambda () (let* ((a (read)) (b (read))) (list a b))))) ==> ((o "p") q)
(let ((s (list 1 2))) (let ((l (list s s (vector s)))) (let ((p (open-output-string))) (write-with-shared-structure l p) (get-output-string p)))) ==> "(#1=(1 2) #1# #(#1#))"
(string-length (format "~s" (let loop ((i 0) (l '())) (if (< i 200) (loop (+ i 1) (cons (string #\a #\") l)) l)))) ==> 1201
"""


# arguments that nothing but the call itself refers to
TEMP = r"""
(vector->list (make-vector 2 (list 1 2)))
(make-vector 3 (string-append "a" "b"))
(list->vector (list (list 1 2) (list 3 4) (string-append "x" "y")))
(list->vector (map (lambda (x) (list x)) '(1 2 3)))
(vector (list 1) (list 2) (list 3))
(vector->list (vector (list 1) (list 2) (list 3)))
(vector->list (list->vector (list (string-append "q" "w") (list 2) (list 3))))
(string->list (string-append "abc" "défg"))
(string->list (string-append "abc" "defgkjdhfgkjdhfgkjdhfg"))
(format (string-append "~s hello ~a " "~s ~~~%") 1 "b" 'c)
(format #f (string-append "~s hello ~a " "~s ~~~%~?") 1 "b" 'c (string-append "<~a" " ~s>") (list (list 1) "s"))
(string->symbol (string-append "fresh" "sym"))
(symbol->string (string->symbol (string-append "fresh" "sym2")))
(open-input-string (string-append "fresh" "sym2"))
(read (open-input-string (string-append "#((a) (b) \"str\"" " #(x))")))
`#(1 ,(list 2) ,@(list (list 3)) ,(string-append "a" "b"))
`(1 ,(list 2) ,@(list (list 3)) ,(string-append "a" "b") . ,(list 1))
(string-append (string-append "a" "b") (string-append "a" "b") (string-append "a" "b"))
(substring (string-append "hello" "world") 1 9)
(list->string (string->list (string-append "hello" "world")))
(string-copy (string-append "hello" "world"))
(append (list (list 1) (list 2)) (list (list 3)) (list 4))
(map cons (list (list 1) (list 2)) (list (list 1) (list 2)))
(apply list (list 1) (list (list 1) (list 2)))
(apply vector (list 1) (list (list 1) (list 2)))
(apply make-vector 2 (list (list 3)))
(vector-map (lambda (i x) (list x)) (vector (list 1) (list 2)))
(let ((v (vector 1 2))) (vector-fill! v (list 3)) v)
(string->number (string-append "123" "45678901"))
(number->string (string->number (string-append "123" "45678901")))
(with-char-codec (string-append "UTF" "-8") (lambda () (list 1)))
(provided? (string-append "srfi" "-1"))
(call-with-values (lambda () (values (list 1) (list 2))) list)
(list-copy (list (list 1) (list 2)))
(eval (list 'list (list 'quote (list 1))) (interaction-environment))
(make-string 3 (integer->char (+ 900 3)))
(string (integer->char (+ 900 3)) (integer->char (+ 900 4)))
(reverse (list (list 1) (list 2)))
(assoc (list 1) (list (cons (list 2) 1) (cons (list 1) 2)))
(let ((p (open-output-string))) (write-with-shared-structure (let ((x (list 1))) (list x x (vector x) (string-append "a" "b"))) p) (get-output-string p))
(let ((p (open-output-string))) (write (vector (list 1) (string-append "a" "b")) p) (get-output-string p))
(* (string->number (string-append "1000" "000")) (string->number (string-append "1000" "0")))
(max (+ 1000000 1) (+ 2000000 2) (+ 300 3))
"""

FRESH = """
(define fresh (lambda (x) (cond ((pair? x) (if (or (%%error-object? x) (promise-like? x)) x (cons (fresh (car x)) (fresh (cdr x)))))
  ((string? x) (string-append x "")) ((vector? x) (list->vector (map fresh (vector->list x)))) (else x))))
(define promise-like? (lambda (x) (and (pair? x) (procedure? (cdr x)))))
"""


def fresh_calls():
    out = []
    for name, kinds, good in e04.parse():
        if "fixnum" in name:
            continue
        out.append("(%s)" % " ".join([name] + ["(fresh %s)" % g if g[0] in "'(\"" and "lambda" not in g else g for g in good]))
    return out


# forms that use what the interpreter keeps for itself
USES = r"""
(let () (eval '(define-record-type $r (mk-r a b) r? (a r-a set-r-a!) (b r-b)) (interaction-environment)) (let ((x (mk-r 1 2))) (set-r-a! x 7) (list (r-a x) (r-b x) (r? x) (r? 5))))
(guard (e ((symbol? e) (list 'sym e)) (#t (list 'other e))) (raise 'boom))
(guard (e ((assq 'a e) => cdr) ((assq 'b e))) (raise (list (cons 'a 42))))
(guard (o (#t (list 'outer o))) (guard (e ((eq? e 1) 'one)) (raise 2)))
(guard (o (#t (list 'outer o))) (guard (e (#f 'one)) (dynamic-wind (lambda () 1) (lambda () (raise 2)) (lambda () 3))))
(guard (e (#t 'caught)) (car 5))
(guard (e (#t 'caught)) (error "why" 1 2))
(with-exception-handler (lambda (e) 5) (lambda () 6))
(call-with-current-continuation (lambda (k) (with-exception-handler (lambda (e) (k (list e))) (lambda () (raise 'x)))))
(let* ((n 0) (p (delay (begin (set! n (+ n 1)) (list n 'p))))) (force p) (force p))
(let ((p (delay (delay 1)))) (force (force p)))
(call-with-values (lambda () (values 1 2 3)) list)
(receive (a . r) (values 1 2 3) (list r a))
(call-with-current-continuation (lambda (k) (dynamic-wind (lambda () 1) (lambda () (k 'left)) (lambda () 2))))
(let ((l '())) (dynamic-wind (lambda () (set! l (cons 1 l))) (lambda () (set! l (cons 2 l))) (lambda () (set! l (cons 3 l)))) l)
`(1 ,(+ 1 1) ,@(list 3 4) #(5 ,(+ 3 3)) . ,(list 7))
(let () (define a 1) (define (f x) (cons x a)) (f 2))
(letrec ((e? (lambda (n) (if (= n 0) #t (o? (- n 1))))) (o? (lambda (n) (if (= n 0) #f (e? (- n 1)))))) (e? 10))
(do ((i 0 (+ i 1)) (l '() (cons i l))) ((= i 4) l))
(case 3 ((1 2) 'low) ((3 4) 'mid) (else 'high))
(and-let* ((x 5) ((> x 3)) (y (list x))) y)
(let-optionals* (list 1) ((a 0) (b (list a 2))) (list a b))
(cond-expand (srfi-23 'yes) (else 'no))
(let () (eval '(define-macro mm (lambda (x) (list 'list x x))) (interaction-environment)) (mm 3))
(let ((p (open-input-string "(a b) \"c\" 42"))) (let* ((a (read p)) (b (read p)) (c (read p)) (d (read p))) (list a b c (eof-object? d))))
(let ((p (open-output-string))) (write '(1 "q" #\a) p) (get-output-string p))
(format "~a ~s ~d ~x" '(1 "q") "w" 42 255)
(format #f "~a|~s" 'a "b")
(eval '(let ((x 1)) (list x)) (interaction-environment))
(string->symbol (string-append "abc" "def"))
(require-extension (srfi 1))
(use srfi-8)
(provided? "srfi-8")
(hash-table-ref/default (let ((h (make-hash-table equal?))) (hash-table-set! h "k" 1) h) "k" 0)
(sort (list 3 1 2) <)
(vector-map (lambda (i x) (list i x)) (vector 1 2))
(fold + 0 '(1 2 3))
(let loop ((i 0)) (if (< i 200) (loop (+ i 1)) (list i)))
(apply + 1 '(2 3))
(map (lambda (x y) (list x y)) '(1 2) '(3 4))
(string->number "ff" 16)
(write-with-shared-structure 5)
(let ((e (guard (e (#t e)) (error "m" 'i)))) (%%inspect-error e))
"""
KEEP = set(("begin guard set! quote lambda if let list cons car cdr cadr eq? not null? write display newline %%error-object? vf-gc vf-tick vf-case vf-show vf-report-error + - = > < vector make-string "
            "interaction-environment eval error exit %%exit define else").split())


def rebind(r, n):
    """the names of most of the library are bound to something else, and only then garbage is collected"""
    names, own = set(), set()
    for d in ("src", "lib"):
        for f in sorted(os.listdir(os.path.join(B.REPO, d))):
            if f.endswith((".c", ".scm")) and f not in ("module-siod.c", "unittest.scm"):
                with open(os.path.join(B.REPO, d, f), errors="replace") as fh:
                    t = fh.read()
                own |= set(re.findall(r'(?:SYMBOL_VALUE|scm_intern)\("([^"]+)"\)', t)) if d == "src" else set()
                names |= set(re.findall(r'DECLARE_FUNCTION\("([^"]+)"' if d == "src" else r"^\(define \(?([^\s()]+)", t, re.M))
    names = sorted(x for x in names - KEEP if re.fullmatch(r"[-a-zA-Z0-9!$%&*/:<=>?^_~+.]+", x))
    uses = USES.strip().split("\n")
    out = []
    for k in range(n):
        part, mine = r.choice([0, 0, 0.02, 0.1, 0.5, 0.9, 1]), r.choice([0.05, 0.2, 0.4, 0.9])
        only = r.choice(["record", "record", "call-with|values", "raise|guard|handler|%%", "char|read", ".", ".", ".", "."])
        sets = " ".join("(guard (e (#t #f)) (set! %s 5))" % x for x in names if re.search(only, x) and r.random() < (mine if x in own else part))
        body = " ".join("(guard (e (#t 'err)) %s)" % u for u in r.sample(uses, len(uses)))
        out.append("(begin %s GC (let (($junk (lambda (n k) (if (> n 0) (begin (list n (make-string 3 #\\j) (vector n n)) (k (- n 1) k)) 1)))) ($junk 300 $junk)) (list %s))" % (sets, body))
    return out


def run(ctx):
    ctx.rule = ("the same program run without forced collections and with a collection before every allocation, every Nth, "
                "and at seeded random allocations, in the ASan builds (free cells poisoned) and at -O2, compact and fatty; "
                "outcomes must agree (and agree with the reference interpreter or the stated value); distinct by program text")
    ctx.assume = ["collections are triggered at allocations only, as in the code"]
    iv = [("1", "0"), ("2", str(ctx.seed)), ("5", str(ctx.seed + 1)), ("13", str(ctx.seed + 2))]
    env = {"VF_HEAP_SIZE": "2048"}
    # 1. holders x objects
    cases = []
    for h in HOLD.strip().split("\n"):
        sub = [(o, "%s", w) for o, w in OBJ] + list(POBJ)
        if "'$g" in h:
            sub = [(o, u, w) for o, u, w in sub if "lambda" not in o and "delay" not in o]
        for o, u, w in sub:
            if not ctx.thorough and ctx.rng.random() < 0.45:
                continue
            b = u.replace("%s", h.replace("$o", o).replace("$g", "($gc)"), 1)
            cases.append(Case(b, ("ok", w), "holders"))
    for v in ("san-compact", "opt-compact", "san-fatty", "opt-fatty"):
        ctx.run(v, cases, PRE, env=env)
    ctx.run("san-compact", cases if ctx.thorough else cases[::6], PRE + "(vf-gc-every 1 0)", env=env, batch=10)
    ctx.run("san-hygienic", [c for c in cases if not any(w in c.body for w in ("pt-", "make-pt", "hash", "sort"))][::2],
            "\n".join(l for l in PRE.split("\n") if "record-type" not in l).replace("(srfi 43 69 95)", "(srfi 43)"), env=env)
    # 1b. temporaries, under several optimisers
    tc = TEMP.strip().split("\n")
    fc = fresh_calls()
    for lst, pre, tag in ((tc, libgen.PRE, "temporaries"), (fc, e04.PRE + FRESH, "fresh arguments")):
        base = R.run_cases("san-compact", [(i + 1, e) for i, e in enumerate(lst)], pre)
        ks = [Case(e, ("ok", base[i + 1].text), tag) for i, e in enumerate(lst)
              if base[i + 1].kind == "ok" and not re.search("#<(?!error|undef)", base[i + 1].text)]
        for v in ("clo-compact", "clo-fatty", "gos-compact", "gos-fatty", "opt-compact", "opt-fatty", "san-compact", "san-fatty"):
            for i in ((1, 2, 3) if ctx.thorough else (1, 3) if tag == "temporaries" else (1,)):
                ctx.run(v, ks, pre + "(vf-gc-every %d 0)" % i, env=env, batch=10 if tag == "temporaries" else 40)
    # 1c. what the interpreter keeps for itself must not depend on names of the program
    rb = common.par(rebind, ctx.n(96, 1600), "M01/%d/rebind" % ctx.seed)
    for v in ("san-compact", "san-fatty"):
        base = R.run_cases(v, [(i + 1, e.replace("GC", "")) for i, e in enumerate(rb)], libgen.PRE, batch=1)
        ctx.run(v, [Case(e.replace("GC", "(vf-gc)"), ("ok", base[i + 1].text, base[i + 1].out), "rebound names") for i, e in enumerate(rb) if base[i + 1].kind == "ok" and not re.search("#<(?!error|undef)", base[i + 1].text)],
                libgen.PRE, env=env, batch=1)
    # 2. longer scripts
    with R.Scratch() as sd:
        sc = common.fixed(SCRIPT.replace('"gctest', '"' + sd + '/gctest'), "scripts")
        for v in ("san-compact", "opt-compact", "san-fatty", "opt-fatty"):
            one = ctx.thorough or v in ("san-compact", "opt-fatty")
            for i, s in ((("1", "0"),) if ctx.thorough else ()) + (("3" if one else "7", str(ctx.seed)), ("50", str(ctx.seed))):
                ctx.run(v, sc, PRE + "(vf-gc-every %s %s)" % (i, s), env=env, batch=1)
            ctx.run(v, sc, PRE, env={"VF_HEAP_SIZE": "256", "VF_THRESH": "32", "VF_HEAPS_INIT": "1", "VF_HEAPS_MAX": "4096"}, batch=30)
    # 3. model-judged random programs
    cs = common.random_programs(ctx, ctx.n(1200, 20000), ("cont", "exc", "values", "delay", "port"), 0.05, 50, "typed")
    for i, s in iv:
        ctx.run("san-compact", cs, common.PRE + "(vf-gc-every %s %s)" % (i, s), env=env)
    ctx.run("opt-compact", cs, common.PRE + "(vf-gc-every 1 0)", env=env)
    ctx.run("opt-fatty", cs[::2], common.PRE + "(vf-gc-every 1 0)", env=env)
    ctx.run("san-fatty", cs[1::2], common.PRE + "(vf-gc-every 1 0)", env=env)
    # 4. library-wide programs: with and without collections
    es = common.par(libgen.exprs, ctx.n(900, 30000), "M01/%d/lib" % ctx.seed, 30)
    base = R.run_cases("opt-compact", [(i + 1, e) for i, e in enumerate(es)], libgen.PRE, batch=100)
    lc = []
    for i, e in enumerate(es):
        b = base[i + 1]
        if b.kind == "ok":
            lc.append(Case(e, ("ok", b.text, b.out), "library"))
        elif b.kind in ("err", "raise"):
            lc.append(Case(e, (b.kind, b.text if b.kind == "raise" else None, b.out), "library"))
        else:
            lc.append(Case(e, ("any",), "library"))
    q = len(lc) // 4
    if ctx.thorough:
        parts = [(v, lc, x) for v in ("san-compact", "opt-compact", "san-fatty", "opt-fatty") for x in iv]
    else:
        parts = [("san-compact", lc[:q], iv[0]), ("opt-compact", lc[q:2 * q], iv[0]), ("san-fatty", lc[2 * q:3 * q], iv[0]),
                 ("opt-fatty", lc[3 * q:], iv[0]), ("gos-compact", lc[3 * q:], iv[0]), ("clo-compact", lc[2 * q:], iv[1]), ("clo-fatty", lc[:q], iv[1]), ("san-compact", lc[q:], iv[2]), ("san-fatty", lc[:q], iv[3])]
    for v, c, (i, s) in parts:
        ctx.run(v, c, libgen.PRE + "(vf-gc-every %s %s)" % (i, s), env=env, batch=25)
    ctx.minimum = 3000
