"""M03: no Scheme program corrupts memory: hostile calls and malformed forms under sanitizers."""
import re

from checks import common, e04
from vlib import interp, libgen, progen, runner as R
from vlib.check import Case
from vlib.datum import parse_all, Pair, Vec, Sym, Str, write, lst, NIL

PRE = r"""
(use sscm-ext)
(use srfi-1)(use srfi-2)(use srfi-6)(use srfi-8)(use srfi-9)(use srfi-23)(use srfi-28)(use srfi-34)(use srfi-38)
(use srfi-48)(use srfi-60)
(require-extension (srfi 43 69 95))
(define-record-type pt (make-pt x y) pt? (x pt-x set-pt-x!) (y pt-y))
(define eof-obj (read-char (open-input-string "")))
(define undef-obj (if #f #f))
(define rec-obj (make-pt 1 "two"))
(define dead-k #f)
(call-with-current-continuation (lambda (k) (set! dead-k k)))
(define error-obj (guard (e (#t e)) (car 5)))
(define raised-obj (guard (e (#t e)) (raise (list 1 2))))
(define (closed-in) (let ((p (open-input-string "abc"))) (close-input-port p) p))
(define (closed-out) (let ((p (open-output-string))) (display "zz" p) (close-output-port p) p))
(define (file-in) (call-with-output-file "vf-m03" (lambda (p) (display "(a \"é\" #(1)) x" p))) (open-input-file "vf-m03"))
(define (closed-file) (let ((p (file-in))) (close-input-port p) p))
(define (circ) (let ((l (list 1 2 3))) (set-cdr! (cddr l) l) l))
(define (lasso) (let ((l (list 1 2 3 4))) (set-cdr! (cdddr l) (cddr l)) l))
(define (selfvec) (let ((v (vector 1 2))) (vector-set! v 0 v) v))
(define (grown) (let ((s (string-copy "abc"))) (string-set! s 1 #\日) (string-set! s 0 #\é) s))
(define (shrunk) (let ((s (string-copy "日本語"))) (string-set! s 1 #\b) s))
(define (try-show x) (guard (e (#t #f)) (let ((p (open-output-string))) (write-with-shared-structure x p) (string-length (get-output-string p)))))
(define (sound? x)
  (cond ((string? x) (let ((l (string->list x))) (and (= (length l) (string-length x)) (string=? (list->string l) x) (= (string-length (string-append x "+")) (+ 1 (string-length x))))))
        ((vector? x) (let loop ((i 0)) (if (< i (vector-length x)) (begin (pair? (vector-ref x i)) (loop (+ i 1))) #t)))
        ((symbol? x) (eq? x (string->symbol (symbol->string x))))
        ((char? x) (char=? x (integer->char (char->integer x))))
        ((number? x) (= x (string->number (number->string x))))
        ((procedure? x) #t)
        (else #t)))
(define (probe)
  (and (equal? (map + '(1 2) '(3 4)) '(4 6))
       (equal? (let loop ((i 0) (a '())) (if (< i 5) (loop (+ i 1) (cons (make-string 1 (integer->char (+ 97 i))) a)) a)) '("e" "d" "c" "b" "a"))
       (eq? (guard (e ((symbol? e) e)) (raise 'still)) 'still)
       (equal? (call-with-current-continuation (lambda (k) (dynamic-wind (lambda () #f) (lambda () (k '(9))) (lambda () #f)))) '(9))
       (equal? (guard (e ((%%error-object? e) 'usable)) (vector-ref (vector) 0)) 'usable)
       (let ((p (open-output-string))) (write (read (open-input-string "(p \"q\" #(#\\r))")) p) (string=? (get-output-string p) "(p \"q\" #(#\\r))"))))
(define-macro try (lambda (e) (list 'guard '(e% (#t 'err)) e)))
"""

POOL = {
    "int": ["0", "1", "2", "3", "-1", "7", "10", "100", "-100", "255", "256", "65535", "65536", "(greatest-fixnum)", "(least-fixnum)", "(- (greatest-fixnum) 1)",
            "(+ (least-fixnum) 1)", "2147483647", "-2147483648", "4294967296", "1114111", "1114112", "55296", "1152921504606846", "-1152921504606846"],
    "small": ["0", "1", "2", "3", "4", "-1", "5", "10"],
    "char": ["#\\a", "#\\newline", "#\\x7f", "#\\x80", "#\\é", "#\\日", "#\\x10ffff", "(integer->char 0)", "#\\A", "(integer->char 159)"],
    "str": ['""', '"a"', '"abc"', '"日本語"', '"aé😀z"', '(string-copy "abc")', '(string-copy "日本語")', "(make-string 5 #\\é)", "(make-string 0 #\\a)", "(grown)", "(shrunk)",
            '(string-append "abc" "日")', "(make-string 300 #\\x)", '"123"', '"-9999999999999999999999"', '"~s ~a ~d ~%~~"', '"~"', '"~30F ~q"', '"~?"', '"ff"', '"srfi-1"', '"UTF-8"', "(string)",
            '(symbol->string \'abc)', '(number->string 12345)', "(substring \"hello\" 1 3)", "(get-output-string (open-output-string))", '"\\n\\t\\""'],
    "sym": ["'a", "'quote", "'else", "(string->symbol \"\")", "(string->symbol \"日 本\")", "'=>", "'..."],
    "null": ["'()"],
    "list": ["'(1 2 3)", "(list 1 \"b\" #\\c)", "(list)", "(list (list 1) (list 2))", "(iota 40)", "'(a b)", "(list car cdr)", "(list \"a\" \"b\")", "(map list (iota 5))", "'(quote x)", "'(define a 1)"],
    "alist": ["'((a . 1) (b . 2))", "(list (cons 1 2) (cons \"x\" 'y))", "'((a) (b))"],
    "charlist": ["'(#\\a #\\b)", "(list #\\日 #\\x)", "(list)"],
    "dotted": ["(cons 1 2)", "'(1 2 . 3)", "(cons \"a\" (cons 'b 'c))", "'((a . 1) . b)"],
    "circ": ["(circ)", "(lasso)", "(selfvec)"],
    "vec": ["(vector)", "'#()", "'#(1 2 3)", "(vector 1 2 3 4)", "(make-vector 20 'x)", "(vector \"a\" #\\b '(c))", "'#(#(1) #(2))"],
    "bool": ["#t", "#f"],
    "proc": ["car", "cons", "+", "list", "values", "(lambda () 1)", "(lambda (x) x)", "(lambda x x)", "(lambda (a b . c) c)", "(lambda (x) (raise x))", "(lambda x (k0 x))", "(lambda x (values 1 2))",
             "(lambda x (values))", "<", "char<?", "(lambda x (vf-gc) x)", "(lambda x (dead-k 1))", "vector-ref", "apply", "call-with-current-continuation", "(lambda (p) (read-char p) (close-input-port p))",
             "(lambda (p) (write 'x p) (close-output-port p))", "equal?", "hash", "(lambda x #f)", "(lambda x (car 1))", "map", "error", "string-append", "(lambda x (for-each (lambda (y) (if (pair? y) (set-cdr! y '()))) x) 1)"],
    "kont": ["k0", "dead-k"],
    "iport": ["(open-input-string \"abc (d e) \\\"f\\\" #\\\\g\")", "(open-input-string \"\")", "(open-input-string \"日本語\")", "(open-input-string \"((((\")", "(file-in)", "(closed-in)", "(closed-file)", "(current-input-port)"],
    "oport": ["(open-output-string)", "(closed-out)", "(let ((p (open-output-string))) (display \"日本\" p) p)", "(open-output-file \"vf-m03o\")"],
    "eof": ["eof-obj"], "undef": ["undef-obj"],
    "record": ["rec-obj", "(make-pt 1 2)"],
    "err": ["error-obj", "raised-obj"],
    "prom": ["(delay 1)", "(delay (car 1))", "(delay (k0 1))"],
    "env": ["(interaction-environment)", "'()", "(list 1 2)", "(list (list 'a 'b) (list 1 2))", "'((a b) 1)", "'(((a . b) 1 . 2))",
            "(list (cons '(a) 5))", "'((a 1) . 5)", "(list (cons 'a (list 1)))", "'(((1 2) 3 4))", "'(((x)))"],
    "hash": ["(make-hash-table equal? hash)", "(let ((h (make-hash-table))) (hash-table-set! h 'a 1) h)", "(make-hash-table string=?)"],
}
SAFE_CIRC = {"list?", "length", "length+", "circular-list?", "dotted-list?", "proper-list?", "length*", "car", "cdr", "cadr", "cddr", "caddr", "cdddr", "pair?", "null?", "vector?", "eq?", "eqv?",
             "write-with-shared-structure", "cons", "list", "vector", "procedure?", "not", "vector-fill!", "make-vector", "set-car!", "set-cdr!", "raise", "values", "list-ref",
             "apply", "force", "cons*", "xcons", "symbol?", "list-tail"}
SAFE_REC = {"pt-x", "set-pt-x!", "make-pt", "vector-length", "vector-ref", "vector-empty?", "vector-swap!", "vector-set!", "vector->list", "vector-copy", "vector-reverse!", "hash-table-merge!"}
EXTRA = """reverse! list list
append! list list
error any any*
raise any
%%inspect-error any
string-append str*
exact->inexact any
format+ str any*
format str any*
format oport str any*
xcons any any
make-list small any
list-tabulate small proc
list-copy list
iota small
iota small small
proper-list? any
not-pair? any
list= proc list list
first list
third list
tenth list
take list small
drop list small
take-right list small
drop-right! list small
split-at list small
last list
zip list list
unzip3 list
append-reverse list list
concatenate list
count proc list
fold proc any list
fold-right proc any list list
reduce proc any list
pair-fold proc any list
append-map proc list
filter-map proc list
map! proc list
pair-for-each proc list
filter proc list
partition! proc list
remove proc list
delete any list
delete-duplicates list
assoc any alist proc
alist-copy alist
alist-delete any alist
find proc list
find-tail proc list
take-while proc list
span! proc list
any proc list
every proc list list
list-index proc list
lset-adjoin proc list any
lset<= proc list list
lset-union proc list list
lset-xor proc list list
vector-unfold proc small
vector-copy vec small small
vector-reverse-copy vec small
vector-append vec vec
vector-concatenate list
vector-empty? vec
vector= proc vec vec
vector-fold proc any vec
vector-map proc vec
vector-map! proc vec
vector-for-each proc vec vec
vector-count proc vec
vector-index proc vec
vector-skip-right proc vec
vector-binary-search vec any proc
vector-any proc vec
vector-swap! vec small small
vector-fill! vec any small small
vector-copy! vec small vec small
vector-reverse-copy! vec small vec
vector-reverse! vec small
reverse-vector->list vec
reverse-list->vector list
hash any
hash any small
string-hash str
make-hash-table proc proc
hash-table-ref hash any proc
hash-table-set! hash any any
hash-table-delete! hash any
hash-table-update! hash any proc
hash-table-walk hash proc
hash-table-fold hash proc any
hash-table->alist hash
alist->hash-table alist
hash-table-merge! hash hash
sort list proc
sort! list proc proc
merge list list proc
sorted? list proc
pt-x record
set-pt-x! record any
make-pt any any
with-char-codec codec proc
with-input-from-file filename proc
with-output-to-file filename2 proc
call-with-output-file filename2 proc
%%set-current-input-port! iport
%%set-current-error-port! oport
%%current-error-port
%%system-load-path
load-path
symbol-bound? sym env
eval any env
%%require-module str
require str
%%string-reconstruct! str
string-set! str small char
substring str small small
list->string charlist
string-fill! str char
number->string int radix
make-string len char
make-vector len any
call-with-values proc proc
dynamic-wind proc proc proc
call-with-current-continuation proc
write-with-shared-structure any oport any
peek-char iport
read iport
display any oport
char-ready? iport
let-vector-start+end""".split("\n")
KINDS = {"any": list(POOL), "nat": ["small", "int"], "nonzero": ["int"], "idx": ["small", "int"], "idx2": ["small", "int"], "radix": ["int", "small"], "five": ["small"],
         "codec": ["str"], "filename": ["str"], "filename2": ["ofile"], "pair": ["list", "alist", "dotted", "charlist"], "list": ["list", "alist", "charlist", "null"], "alist": ["alist", "list", "null"],
         "charlist": ["charlist", "list"], "proc": ["proc", "proc", "proc", "kont"], "env": ["env"], "port": ["iport", "oport"], "ostrport": ["oport"], "list-len": ["list"], "len": ["small", "len"],
         "vec": ["vec", "vec", "vec", "record"]}
POOL["ofile"] = ['"vf-m03x"']
POOL["len"] = ["1000", "6000", "(- 0 70000)"]
NOT = {"%%current-environment", "exit", "%%fatal-error", "%%prealloc-heaps", "%%set-current-output-port!", "%%set-current-char-codec!", "load", "vf-gc", "let-vector-start+end", "interaction-environment"}
ALLOC = {"make-string", "make-vector", "make-list", "list-tabulate", "iota", "vector-unfold", "expt", "make-hash-table"}
LIBONLY = None


def procs():
    t = {}
    for name, kinds, good in e04.parse():
        if name not in NOT and "e04r" not in name and "e04" not in name:
            t.setdefault(name, []).append(kinds)
    for l in EXTRA:
        p = l.split()
        if p[0] not in NOT:
            t.setdefault(p[0], []).append(p[1:])
    return t


class W:
    def __init__(self, r, table, lib):
        self.r, self.t, self.lib = r, table, lib
        self.names = list(table)

    def value(self, kind):
        r = self.r
        kind = kind.rstrip("?*")
        ks = KINDS.get(kind, [kind])
        k = r.choice(ks)
        if k == "circ" and r.random() < 0.8:
            k = "list"
        return r.choice(POOL[k]), k

    def call(self, vars, name=None):
        """text, kinds used, whether a later use of the variables is unsafe"""
        r = self.r
        name = name or r.choice(self.names)
        kinds = r.choice(self.t[name])
        n = len(kinds)
        if kinds and kinds[-1][-1] in "?*":
            n = n - 1 + r.choice([0, 1, 1, 2, 3])
        args = []
        if r.random() < 0.08:
            n = max(0, n + r.choice([-1, 1, 2]))
        wrong = r.randrange(n) if n and r.random() < 0.3 else -1
        used = []
        for i in range(n):
            kd = e04.kind_at(kinds, i, n) if i < len(kinds) or (kinds and kinds[-1][-1] in "*?") else "any"
            kd = (kd or "any").rstrip("?*")
            if i == wrong:
                kd = "any"
            fit = [v for v in vars if v[1] in KINDS.get(kd, [kd])]
            v = r.choice(fit) if fit else None
            # x! with x twice makes a cycle and may never end
            if v and r.random() < 0.6 and not (v[0] in args and name.endswith("!")):
                args.append(v[0])
                used.append(v[1])
            else:
                e, k = self.value(kd)
                args.append(e)
                used.append(k)
        if "circ" in used and name not in SAFE_CIRC:
            return None
        # records and hash tables hold their circular type
        if ("record" in used or "hash" in used) and not (name in SAFE_CIRC or name in SAFE_REC or name.startswith("hash-table-") and used[0] == "hash" and not set(used[1:]) & {"hash", "record"}):
            return None
        if name in ALLOC and any(k == "int" for k in used):
            args = [a if k not in ("int", "small", "len") or len(a) < 5 and a[0] != "x" else "3" for a, k in zip(args, used)]
        if name in self.lib and any(k in ("int", "len") for k in used):
            args = [a if k not in ("int", "small", "len") or len(a) < 5 and a[0] != "x" else "3" for a, k in zip(args, used)]
        last = name.endswith("!") and not name.startswith("string-") or name in ("append", "sort", "concatenate") or any("set-cdr!" in a for a in args)
        return "(%s)" % " ".join([name] + args), last

    def case(self):
        r = self.r
        vs = []
        for i in range(r.randint(1, 4)):
            e, k = self.value(r.choice(["any", "str", "str", "list", "vec", "iport", "oport", "proc", "hash"]))
            vs.append(("x%d" % i, k, e))
        calls = []
        for _ in range(r.randint(1, 6)):
            c = self.call(vs)
            if c is None:
                continue
            if r.random() < 0.12:
                c = ("(let ((r% " + c[0] + ")) (try-show r%) r%)", c[1])
            calls.append("(try (try-show %s))" % c[0] if r.random() < 0.5 else "(try %s)" % c[0])
            if r.random() < 0.05:
                calls.append("(vf-gc)")
            if c[1]:
                break
        if any(k == "circ" for _, k, _ in vs):
            fin = ""
        else:
            fin = "".join("(if (not (sound? %s)) (raise 'unsound))" % v[0] for v in vs if v[1] in ("str", "vec", "char", "sym"))
        return "(begin (try (list (call-with-current-continuation (lambda (k0) (try (let* (%s) %s)) #t)))) (probe))" % (
            " ".join("(%s %s)" % (v[0], v[2]) for v in vs), " ".join(calls) + fin.replace("(raise 'unsound)", "(set! bad #t)") + " " + " ".join("(try-show %s)" % v[0] for v in vs))


def wild(r, n, lib):
    w = W(r, procs(), lib)
    return [w.case() for _ in range(n)]


# ---- malformed programs -------------------------------------------------
ATOMS = ["1", "-7", "()", "#t", "#f", "x", "y", "car", "list", "else", "=>", "lambda", "if", "define", "let", "quote", "unquote", "unquote-splicing", "quasiquote", "\"s\"", "#\\c", "...", "begin", "set!",
         "v1", "+", "(1 . 2)", "(a . b)", "(x)", "((x 1))", "((x 1 2))", "((x . 1))", "(1 2)", "((1 2))", "#(1 2)", "(x . y)", "(x x)", "(else 1)", "(else)", "(else =>)", "(#t => car)", "(#t =>)", "('x)", "(lambda)", "(define x 1)",
         "(begin)", "(let ())", "(lambda (x) x)", "(quote)", "(quote 1 2)", "(unquote)", "(unquote x y)", "(unquote-splicing x)", "(unquote . x)", "(quasiquote)", "(if)", "(if 1)", "(cond)", "(case)", "(case 1)",
         "(case 1 (1 2))", "(case 1 ((1 . 2) 3))", "(do)", "(do ())", "(do ((x 1 2 3)) (#t))", "(delay)", "(guard)", "(receive)", "(and-let*)", "(let-optionals*)", "(define-macro)", "(define-record-type)", "(set! x)", "(set! 1 2)"]
KEYS = ["lambda", "if", "set!", "cond", "case", "and", "or", "let", "let*", "letrec", "begin", "do", "delay", "quasiquote", "quote", "define", "define-macro", "guard", "receive", "and-let*", "let-optionals*",
        "define-record-type", "cond-expand", "let-vector-start+end", "unquote", "unquote-splicing", "use", "require-extension", "eval", "apply", "map", "call-with-values"]


def atom(r):
    return parse_all(r.choice(ATOMS))[0]


def nodes(x, out, path=()):
    if isinstance(x, Pair):
        out.append(x)
        nodes(x.car, out)
        nodes(x.cdr, out)
    elif isinstance(x, Vec):
        for y in x.v:
            nodes(y, out)


def mutate(r, form):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        ps = []
        nodes(form, ps)
        if not ps:
            return form
        p = r.choice(ps)
        z = r.randrange(12)
        q = r.choice(ps)
        if z == 0:
            p.car = atom(r)
        elif z == 1:
            p.cdr = atom(r)
        elif z == 2:
            p.cdr = NIL
        elif z == 3 and isinstance(p.cdr, Pair):
            p.cdr = p.cdr.cdr
        elif z == 4:
            p.cdr = Pair(p.car, p.cdr)
        elif z == 5:
            p.cdr = Pair(atom(r), p.cdr)
        elif z == 6:
            p.car, q.car = q.car, p.car
            if cyclic(form):
                p.car, q.car = q.car, p.car
        elif z == 7 and isinstance(p.cdr, Pair):
            p.car, p.cdr.car = p.cdr.car, p.car
        elif z == 8:
            p.car = lst([p.car])
        elif z == 9 and isinstance(p.car, Pair):
            p.car = p.car.car
        elif z == 10:
            p.car = Sym(r.choice(KEYS))
        else:
            p.car = NIL
    return form


def cyclic(x, up=frozenset(), n=None):
    n = n or [0]
    n[0] += 1
    if n[0] > 5000:
        return True
    if isinstance(x, Pair):
        if id(x) in up:
            return True
        up = up | {id(x)}
        return cyclic(x.car, up, n) or cyclic(x.cdr, up, n)
    return False


def rand_form(r, d=3):
    """(keyword random-structure ...)"""
    def some(d):
        z = r.random()
        if d <= 0 or z < 0.45:
            return r.choice(ATOMS)
        k = r.randint(0, 3)
        s = " ".join(some(d - 1) for _ in range(k))
        if z < 0.55 and k:
            return "(%s . %s)" % (s, r.choice(ATOMS))
        if z < 0.6:
            return "#(%s)" % s
        if z < 0.75:
            return "(%s %s)" % (r.choice(KEYS), s)
        return "(%s)" % s
    k = r.randint(0, 4)
    t = " ".join(some(d) for _ in range(k))
    if r.random() < 0.1:
        t += " . " + r.choice(ATOMS)
    return "(%s %s)" % (r.choice(KEYS), t) if not t.startswith(" .") else "(%s)" % r.choice(KEYS)


TARGET = re.compile(r"^(x|y|[a-z]{1,3}\d+|\.\.\.|else|=>)$")


def harmful(f):
    ps = []
    nodes(f, ps)
    for p in ps:
        if isinstance(p.car, Sym) and p.car.name in ("set!", "define", "define-macro", "define-record-type"):
            t = p.cdr
            while isinstance(t, Pair):
                t = t.car
            if isinstance(t, Sym) and not TARGET.match(t.name):
                return True
    return False


def malformed(r, n):
    out = []
    while len(out) < n:
        if r.random() < 0.5:
            t = progen.program(r, ("cont", "exc", "values", "delay", "delta"), 0.02, r.randint(10, 40))
            try:
                fs = parse_all(t)
            except Exception:
                continue
            if len(fs) != 1:
                fs = [lst([Sym("begin")] + fs)]
            f = mutate(r, fs[0])
            if cyclic(f):
                continue
            t = write(f)
            if "#<" in t or len(t) > 4000:
                continue
        else:
            t = rand_form(r)
            f = parse_all(t)[0]
        if harmful(f):
            continue
        try:
            x = interp.run_forms(parse_all(progen.PRELUDE + t), 60, 20000)
        except Exception:
            x = ("err",)
        if x is None:
            continue
        out.append(t)
    return out


# ---- scenarios an attacker would write ----------------------------------
SCEN = r"""
(let ((l (list 1 2 3 4))) (map (lambda (x) (set-cdr! l '()) x) l))
(let ((l (list 1 2 3 4))) (map (lambda (x y) (set-cdr! (cdr l) 5) x) l l))
(let ((l (list 1 2 3 4))) (for-each (lambda (x) (set-cdr! l '()) (vf-gc)) l) l)
(let ((l (list 3 1 2 4 9 8))) (sort l (lambda (a b) (set-cdr! l '()) (< a b))))
(let ((l (list 3 1 2 4 9 8))) (sort! l (lambda (a b) (set-cdr! (cdr l) '()) (< a b))))
(let ((v (vector 1 2 3))) (vector-map (lambda (i x) (vector-fill! v (list i)) x) v))
(let* ((s (string-copy "abc")) (p (open-input-string s))) (read-char p) (string-set! s 0 #\日) (string-fill! s #\é) (vf-gc) (list (read-char p) (read-char p) (read-char p)))
(let* ((s (string-copy "abc"))) (let ((p (open-input-string s))) (set! s #f) (vf-gc) (make-string 200 #\z) (list (read-char p) (read p))))
(let* ((p (open-output-string))) (write 'abc p) (let ((s (get-output-string p))) (write 'def p) (string-set! s 0 #\日) (list s (get-output-string p))))
(let ((p (open-output-string))) (let loop ((i 0)) (if (< i 3000) (begin (write-char #\日 p) (loop (+ i 1))))) (string-length (get-output-string p)))
(let ((p (open-input-string "a"))) (close-input-port p) (close-input-port p) (try (read-char p)) (try (peek-char p)) (try (char-ready? p)) (try (read p)))
(let ((p (open-output-string))) (close-output-port p) (close-output-port p) (try (write 1 p)) (try (newline p)) (try (get-output-string p)))
(let ((p (open-output-file "vf-m03c"))) (write 'x p) (close-output-port p) (try (write 'y p)) (try (close-output-port p)) (call-with-input-file "vf-m03c" read))
(begin (call-with-output-file "vf-m03d" (lambda (p) (write '(1 2 3) p))) (let ((p (open-input-file "vf-m03d"))) (read-char p) (close-input-port p) (vf-gc) (try (read p)) (vf-gc) 1))
(let ((old (current-input-port))) (%%set-current-input-port! (open-input-string "hello (world)")) (let* ((a (read)) (b (read)) (c (read))) (%%set-current-input-port! old) (list a b (eof-object? c))))
(let ((p (open-output-string)) (old (current-output-port))) (%%set-current-output-port! p) (display "captured") (newline) (%%set-current-output-port! old) (get-output-string p))
(let ((p (open-output-string)) (old (%%current-error-port))) (%%set-current-error-port! p) (try (%%inspect-error 5)) (%%inspect-error error-obj) (%%backtrace) (%%set-current-error-port! old) (string? (get-output-string p)))
(try (%%set-current-output-port! 5))
(try (%%set-current-input-port! (closed-in)))
(let ((k #f) (n 0)) (call-with-current-continuation (lambda (c) (set! k c))) (set! n (+ n 1)) (if (< n 3) (try (k 1))) n)
(let ((k #f)) (map (lambda (x) (call-with-current-continuation (lambda (c) (if (not k) (set! k c)) x))) '(1 2 3)) (try (k 5)))
(dynamic-wind (lambda () (try (car 1))) (lambda () (try (raise 2))) (lambda () (try (dead-k 3))))
(try (dynamic-wind (lambda () (raise 1)) (lambda () 2) (lambda () 3)))
(try (dynamic-wind (lambda () 1) (lambda () 2) (lambda () (raise 3))))
(try (dynamic-wind (lambda () 1) (lambda () (raise 2)) (lambda () (raise 3))))
(try (with-exception-handler (lambda (e) (raise e)) (lambda () (raise 1))))
(try (with-exception-handler (lambda (e) (car e)) (lambda () (raise 1))))
(try (with-exception-handler (lambda (e) 1) (lambda () (raise 1))))
(try (with-exception-handler (lambda () 1) (lambda () (raise 1))))
(try (with-exception-handler 5 (lambda () (raise 1))))
(try (with-exception-handler (lambda (e) 5) 6))
(try (guard (e ((begin (raise 'in-clause) #t) 1)) (raise 2)))
(try (guard (e (#f 1)) (guard (e2 (#f 2)) (raise 3))))
(try (guard (e ((memv e '(1 2)) => (lambda (x) (raise x)))) (raise 1)))
(call-with-current-continuation (lambda (k) (for-each (lambda (x) (dynamic-wind (lambda () 1) (lambda () (if (= x 2) (k x))) (lambda () 2))) '(1 2 3))))
(let ((k (call-with-current-continuation (lambda (c) c)))) (if (procedure? k) (try (k 5)) k))
(try (apply car '(1 2 3)))
(try (apply apply (list apply (list car (list (list 1))))))
(apply max (iota 1000))
(try (apply map (cons list (map list (iota 200)))))
(length (apply list (iota 5000)))
(apply (lambda (a b c d e f g h i j k l m n o p q r s t u v w x y z . rest) (list z rest)) (iota 40))
(try ((lambda (a b) a) 1))
(try ((lambda (a . b) a)))
(try (let-optionals* (list 1 2 3) ((a 1)) a))
(let-optionals* '() ((a (vf-gc)) (b (list a)) . c) (list b c))
(try (let-optionals* 5 ((a 1)) a))
(try (let-optionals* (list 1) (5) 1))
(try (let-vector-start+end list (vector 1 2 3) '(0 2) (s e) (list s e)))
(try (let-vector-start+end list (vector 1 2 3) '(0 9) (s e) (list s e)))
(try (let-vector-start+end list '(1) '(0 9) (s e) (list s e)))
(try (let-vector-start+end list (vector 1 2 3) '(a b) (s e) (list s e)))
(try (let-vector-start+end list (vector 1 2 3) '(2 1) (s e) (list s e)))
(try (let-vector-start+end list (vector 1 2 3) 5 (s e) (list s e)))
(try (let-vector-start+end 1 2 3 4 5))
(try (vector-ref (vector 1 2) (greatest-fixnum)))
(try (vector-ref (vector 1 2) (least-fixnum)))
(try (string-ref "abc" (greatest-fixnum)))
(try (string-ref "日本" 2))
(try (substring "日本語" 3 3))
(try (substring "日本語" 2 1))
(try (substring "日本語" 0 4))
(try (substring "" 0 0))
(try (list-tail '(1 2) (greatest-fixnum)))
(try (list-ref '(1 2) (least-fixnum)))
(try (make-vector -1))
(try (make-string -1))
(try (make-vector (least-fixnum) 1))
(try (quotient (least-fixnum) -1))
(try (remainder (least-fixnum) -1))
(try (modulo (least-fixnum) -1))
(try (quotient 1 0))
(try (remainder 1 0))
(try (modulo 1 0))
(try (/ (least-fixnum) -1))
(try (abs (least-fixnum)))
(try (- (least-fixnum)))
(try (gcd (least-fixnum) (least-fixnum)))
(try (lcm (greatest-fixnum) (least-fixnum)))
(try (expt 0 0))
(try (expt 2 62))
(try (expt 2 1000))
(try (expt -2 63))
(try (expt 2 -1))
(try (* (greatest-fixnum) (greatest-fixnum)))
(try (* (least-fixnum) -1))
(try (integer->char -1))
(try (integer->char (greatest-fixnum)))
(try (integer->char 4294967296))
(try (number->string (least-fixnum) 2))
(try (number->string 5 37))
(try (string->number (make-string 5000 #\9)))
(try (string->number (make-string 5000 #\1) 2))
(try (string->number "" 10))
(try (string->number "-"))
(try (string->number "12" 37))
(try (format (make-string 3000 #\~)))
(try (format "~99999999999999999999d" 1))
(try (format "~127,127f" 1))
(try (format "~?" "~?" '("~s" (1))))
(try (format "~?" "~s" 5))
(try (format "~s ~s" 1))
(try (format "~s" 1 2))
(try (format 5 "~s" 1))
(try (format #t 5))
(try (format "~c" 1))
(try (format "~d" 'a))
(try (format "~x" (least-fixnum)))
(try (format "~b" (least-fixnum)))
(try (format "~y" '(1 (2 (3)))))
(try (format (string-append "~" (string #\日))))
(try (symbol->string (string->symbol (make-string 20000 #\s))))
(try (string->symbol (string-append "a" (make-string 2000 #\日))))
(try (with-char-codec "EUC-JP" (lambda () (string-length "日本語"))))
(try (with-char-codec "Shift_JIS" (lambda () (string->list "日本語"))))
(try (with-char-codec "ISO-8859-1" (lambda () (list->string (list #\日)))))
(try (with-char-codec "EUC-JP" (lambda () (read (open-input-string "日本語 \"日\"")))))
(try (with-char-codec "EUC-JP" (lambda () (string-set! (string-copy "日本語") 1 #\a))))
(try (with-char-codec "Shift_JIS" (lambda () (string-fill! (string-copy "日本語") #\日))))
(try (with-char-codec "EUC-KR" (lambda () (write (list "日本語" #\日 'sym日)))))
(try (with-char-codec "EUC-CN" (lambda () (substring "日本語テスト" 1 2))))
(try (with-char-codec "none" (lambda () 1)))
(let ((s (string-copy "日本語"))) (try (with-char-codec "ISO-8859-1" (lambda () (string-set! s 4 #\a) (string-ref s 8)))) (try (string-length s)) (try (string->list s)) (try-show s))
(let ((s (string-copy "日本語"))) (try (with-char-codec "EUC-JP" (lambda () (string-set! s 0 (integer->char #xa4a2)) s))) (try (string-length s)) (try (string->list s)) (try (string-set! s 0 #\a)) (try-show s))
(let ((s (string-copy "日本語"))) (try (with-char-codec "ISO-8859-1" (lambda () (string-fill! s (integer->char 255))))) (try (%%string-reconstruct! s)) (try (string->list s)) (try (string-set! s 0 #\日)) (try-show s))
(try (eval '(lambda (x) x) '((a . b))))
(try (eval 'a '(((a . b) 1 . 2))))
(try (eval '(set! a 5) (list (list '(a) 1))))
(try (eval 'b '((a 1) . 5)))
(try (eval '(define zz 1) (let ((q 1)) (%%current-environment))))
(try (symbol-bound? 'a '((a . b) 1)))
(try ((eval '(lambda args (define-macro m (lambda (x) x)) (m args)) (interaction-environment)) 1))
(begin (eval '(define-macro m03-self (lambda (x) (list 'quote x))) (interaction-environment)) (try (eval '(m03-self) (interaction-environment))) (try (eval '(m03-self 1 2) (interaction-environment))) (try (eval '(m03-self . 5) (interaction-environment))) (eval '(m03-self (m03-self)) (interaction-environment)))
(begin (eval '(define-macro m03-dot (lambda x (cons 'list x))) (interaction-environment)) (try (eval '(m03-dot . 5) (interaction-environment))) (try (eval '(m03-dot 1 . 5) (interaction-environment))) (try (eval 'm03-dot (interaction-environment))) (try (eval '(set! m03-dot 1) (interaction-environment))) (try (eval '(m03-dot 1 2) (interaction-environment))))
(begin (eval '(define-macro m03-gc (lambda (x) (vf-gc) (list 'begin '(vf-gc) x))) (interaction-environment)) (let ((y (list 1))) (m03-gc y)))
(try (eval '(define-record-type m03r (mk a b a) m03r? (a ga) (b gb)) (interaction-environment)))
(try (eval '(define-record-type m03r (mk c) m03r? (a ga)) (interaction-environment)))
(try (eval '(define-record-type m03r (mk a) m03r? (a ga sa extra)) (interaction-environment)))
(try (eval '(define-record-type) (interaction-environment)))
(try (eval '(define-record-type 5 6 7) (interaction-environment)))
(try (eval '(define-record-type m03q (mk a) q? 5) (interaction-environment)))
(try (pt-x (vector 1 2 3)))
(try (pt-x (vector)))
(try (set-pt-x! (vector 1 2 3) 3))
(try (vector-set! rec-obj 0 5))
(try (require-extension (srfi 9999)))
(try (require-extension (srfi a)))
(try (require-extension 5))
(try (require-extension (srfi . 1)))
(try (use nosuch))
(try (use 5))
(try (%%require-module "nosuch"))
(try (%%require-module 'srfi-1))
(try (require "nosuch-file.scm"))
(try (load "nosuch-file.scm"))
(try (load ""))
(try (load "."))
(try (open-input-file "."))
(try (open-input-file ""))
(try (open-output-file "nosuchdir/x"))
(try (provide 5))
(try (provided? 5))
(try (cond-expand (nosuch 1)))
(try (cond-expand ((and) 1)))
(try (cond-expand ((not) 1)))
(try (cond-expand ((or . 5) 1)))
(try (cond-expand 5))
(try (cond-expand ((not else) 1) (else 2)))
(try (string-set! "literal" 0 #\a))
(try (string-set! (symbol->string 'abc) 0 #\z))
(list (try (string-set! (symbol->string 'abcd) 0 #\日)) 'abcd)
(try (string-fill! "lit" #\a))
(try (vector-set! '#(1 2) 0 1))
(try (vector-fill! '#(1 2) 0))
(try (set-car! '(1 2) 1))
(try (list->string '(#\a . #\b)))
(try (list->string '(1 2)))
(try (list->vector '(1 . 2)))
(try (list->vector (circ)))
(try (length (circ)))
(try (list? (circ)))
(try (list? (lasso)))
(try (length+ (circ)))
(try (apply + (circ)))
(try (map car (circ)))
(try (write-with-shared-structure (circ) (open-output-string)))
(try (write-with-shared-structure (selfvec) (open-output-string)))
(try (write-with-shared-structure (let ((v (make-vector 3))) (vector-fill! v v) v) (open-output-string)))
(try (write-with-shared-structure (let ((l (iota 3000))) (list l l l)) (open-output-string)))
(try (write (let loop ((i 0) (x '())) (if (< i 3000) (loop (+ i 1) (list x)) x)) (open-output-string)))
(try (equal? (let loop ((i 0) (x '())) (if (< i 3000) (loop (+ i 1) (list x)) x)) (let loop ((i 0) (x '())) (if (< i 3000) (loop (+ i 1) (list x)) x))))
(try (read (open-input-string (make-string 3000 #\())))
(try (read (open-input-string (string-append (make-string 3000 #\() (make-string 3000 #\))))))
(try (read (open-input-string (make-string 3000 #\'))))
(try (read (open-input-string (make-string 70000 #\a))))
(try (read (open-input-string (string-append "\"" (make-string 70000 #\日) "\""))))
(try (read (open-input-string (string-append "\"" (make-string 7000 #\日)))))
(try (read (open-input-string (string-append "#\\" (make-string 7000 #\a)))))
(try (read (open-input-string (make-string 7000 #\1))))
(let ((h (make-hash-table equal? hash))) (hash-table-set! h 'a 1) (hash-table-walk h (lambda (k v) (hash-table-delete! h k) (hash-table-set! h (list k) v))) #t)
(let ((h (make-hash-table equal? (lambda (k . b) -1)))) (try (hash-table-set! h 'a 1)))
(let ((h (make-hash-table equal? (lambda (k . b) 'x)))) (try (hash-table-set! h 'a 1)))
(let ((h (make-hash-table equal? (lambda (k . b) 1000000)))) (try (hash-table-set! h 'a 1)))
(let ((p (delay (begin (vf-gc) (list 1))))) (list (force p) (force p)))
(letrec ((p (delay (begin (set! c (+ c 1)) (if (< c 3) (force p) c)))) (c 0)) (force p))
(try (force (cons 1 2)))
(try (force (cons (lambda () 1) (lambda () 2))))
(let ((p (delay 1))) (set-cdr! p 5) (try (force p)))
(let ((p (delay 1))) (set-car! p car) (try (force p)))
(try (letrec ((a b) (b 1)) a))
(try (letrec ((a (lambda () b)) (b (a))) b))
(try (let loop ((i 0)) (if (< i 10) (begin (set! loop (lambda (x) 'done)) (loop 1)))))
(let ((f #f)) (set! f (lambda (x) (set! f (lambda (y) 'new)) (f x))) (f 1))
(try (call-with-values (lambda () (values 1 2 3)) (lambda (a b) a)))
(try (call-with-values (lambda () (values)) (lambda (a) a)))
(try (+ (values 1 2) 3))
(try (car (values)))
(try (begin (values 1 2)))
(try (receive (a b . c) (values 1) a))
(try (receive 5 (values 1) 2))
(try (let ((x (values 1 2))) x))
(try (if (values #f #t) 1 2))
(try (list (values)))
(values-escape)
(let ((car cdr)) (car '(1 2)))
(try (quasiquote (1 (unquote))))
(try (quasiquote (1 unquote 2 3)))
(try (quasiquote (1 (unquote-splicing 5) 6)))
(try (quasiquote (1 (unquote-splicing '(1 . 2)) 6)))
(try (quasiquote #(1 (unquote-splicing 5))))
(try (quasiquote #(1 (unquote-splicing '(1 . 2)))))
(try (quasiquote #((unquote-splicing (circ-guard)))))
(try `(1 . ,@(list 2)))
(try `,@(list 2))
(try `(`,@(,@(list 1 2))))
(try (case 1 (else => list)))
(try (string-append "a" 5))
(try (string-append (make-string 40000 #\日) (make-string 40000 #\a)))
(try (let loop ((i 0) (s "ab")) (if (< i 14) (loop (+ i 1) (string-append s s)) (string-length s))))
(try (let ((s (make-string 500 #\a))) (let loop ((i 0)) (if (< i 500) (begin (string-set! s i (integer->char (+ 19968 i))) (loop (+ i 1))))) (let loop ((i 0)) (if (< i 500) (begin (string-set! s i #\z) (loop (+ i 2))))) (string-length s)))
(try (%%prealloc-heaps 0))
(try (%%prealloc-heaps -1))
(try (%%prealloc-heaps 3))
(try (%%prealloc-heaps 'a))
(try (exit 'a 'b 'c))
"""
SCEN = "\n".join(l for l in SCEN.split("\n") if l != "(values-escape)" and "circ-guard" not in l and "exit" not in l and "(map car (circ))" not in l and "(apply + (circ))" not in l and "list->vector (circ)" not in l)


def run(ctx):
    ctx.rule = ("hostile programs: procedures called in random sequences on shared objects of every kind (valid, wrong type, wrong count, extreme, closed, "
                "dead, mutated during the call), special forms with mutated structure, and written scenarios; after each the interpreter must still answer a probe "
                "of its basic services and the strings and vectors used must be well formed; any sanitizer report, signal, hang or fatal exit is a violation; distinct by text")
    ctx.assume = ["programs that need unbounded C stack, memory or time are not generated"]
    lib = {l.split()[0] for l in EXTRA if l.split()[0] not in ("make-string", "make-vector", "list->string", "substring", "string-set!", "number->string")}
    ws = common.par(wild, ctx.n(30000, 600000), "M03/%d/wild" % ctx.seed, lib)
    pre = PRE + "(define bad #f)\n"

    cs = [Case(b[:-1] + " (if bad (begin (set! bad #f) 'unsound) (probe)))", ("ok", "#t"), "calls") for b in ws]
    h = len(cs) // 2
    ctx.run("san-compact", cs[:h], pre, batch=60, cpu=20)
    ctx.run("san-fatty", cs[h:], pre, batch=60, cpu=20)
    ctx.run("san-compact", cs[h:h + h // 12], pre + "(vf-gc-every 7 %d)" % ctx.seed, batch=60, cpu=20, env={"VF_HEAP_SIZE": "1024"})
    # the same under MSan, which alone sees a read of memory nobody wrote
    ctx.run("mem-compact", cs[h - h // 4:h], pre, batch=60, cpu=20)
    ctx.run("mem-fatty", cs[h:h + h // 4], pre, batch=60, cpu=20)
    ctx.run("mem-compact", cs[h:h + h // 12], pre + "(vf-gc-every 9 %d)" % ctx.seed, batch=60, cpu=20, env={"VF_HEAP_SIZE": "1024"})
    es = [Case(e, ("any",), "library") for e in common.par(libgen.exprs, ctx.n(1200, 30000), "M03/%d/lib" % ctx.seed, 30)]
    for i, v in enumerate(("mem-compact", "mem-fatty")):
        ctx.run(v, es[i::2], libgen.PRE, batch=40, cpu=20)
    ms = common.par(malformed, ctx.n(6000, 120000), "M03/%d/mal" % ctx.seed)
    mc = [Case("(begin (try (list (eval '%s (interaction-environment)))) (probe))" % t, ("ok", "#t"), "forms") for t in ms]
    ctx.run("san-compact", mc[::2], pre, batch=60, cpu=20)
    ctx.run("san-fatty", mc[1::2], pre, batch=60, cpu=20)
    ctx.run("san-compact", mc[::9], pre + "(vf-gc-every 5 %d)" % ctx.seed, batch=60, cpu=20, env={"VF_HEAP_SIZE": "1024"})
    ctx.run("san-hygienic", [c for c in mc[::9] if "record" not in c.body], "\n".join(l for l in pre.split("\n") if "make-pt" not in l and "record-type" not in l).replace("(srfi 43 69 95)", "(srfi 43)"), batch=60, cpu=20)
    ctx.run("mem-compact", mc[::3], pre, batch=60, cpu=20)
    ctx.run("mem-fatty", mc[1::3], pre, batch=60, cpu=20)
    ctx.run("mem-hygienic", [c for c in mc[::9] if "record" not in c.body], "\n".join(l for l in pre.split("\n") if "make-pt" not in l and "record-type" not in l).replace("(srfi 43 69 95)", "(srfi 43)"), batch=60, cpu=20)
    sc = [Case("(begin (try (list %s)) (probe))" % l, ("ok", "#t"), "scenario") for l in SCEN.strip().split("\n")]
    for v, g in (("san-compact", "0 0"), ("san-fatty", "0 0"), ("mem-compact", "0 0"), ("mem-fatty", "0 0"), ("san-compact", "1 0"), ("san-fatty", "2 %d" % ctx.seed)):
        # forced collections make the largest ones too slow
        ctx.run(v, [c for c in sc if g == "0 0" or "000" not in c.body or ctx.thorough], pre + "(vf-gc-every %s)" % g, batch=20, cpu=20, env={"VF_HEAP_SIZE": "2048"} if g != "0 0" else {})
    ctx.minimum = 10000
