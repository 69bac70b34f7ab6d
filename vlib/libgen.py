"""Random expressions over the whole procedure library, typed so that most calls
are valid.  No model: used where two executions of the same program are compared,
or where any orderly outcome is right."""

TEMPLATES = r"""
int: (string-length $str)
int: (vector-length $vec)
int: (length $list)
int: (length+ $list)
int: (char->integer $char)
int: (+ $int $int)
int: (- $int $int $int)
int: (* $small $small)
int: (quotient $int $pos)
int: (modulo $int $pos)
int: (remainder $int $pos)
int: (gcd $int $int)
int: (lcm $small $small)
int: (abs $int)
int: (max $int $int)
int: (min $int $int $int)
int: (or (string->number $str) 7)
int: (or (string->number (number->string $int $radix) $radix) 8)
int: (string->number (number->string $int))
int: (apply + $ints)
int: (fold + 0 $ints)
int: (reduce max 0 $ints)
int: (count odd? $ints)
int: (vector-count (lambda (i x) (odd? x)) (list->vector $ints))
int: (or (list-index even? $ints) -1)
int: (or (vector-index symbol? $vec) -1)
int: (bitwise-and $int $int)
int: (logior $int $int)
int: (bitwise-xor $int $int $int)
int: (bitwise-not $int)
int: (bitwise-if $int $int $int)
int: (bitwise-merge $int $int $int)
int: (hash-table-ref/default $hash $key -5)
int: (hash-table-ref $hash $key (lambda () -6))
int: (length (hash-table-keys $hash))
int: (let loop ((i 0) (s 0)) (if (< i $small) (loop (+ i 1) (+ s $int)) s))
int: (do ((i 0 (+ i 1)) (a $int (+ a i))) ((> i $small) a))
int: (call-with-values (lambda () (values $int $int)) -)
int: (receive (a . r) (values $int $int $int) (+ a (length r)))
int: (let-optionals* (list $int) ((oa 1) (ob (+ oa 2))) (+ oa ob))
int: (case $int ((0 1 2) $int) ((3 4 -1) 5) (else $int))
int: (case $any ((a b c) $int) ((#\a #\b) $int) (else $int))
int: (vector-fold (lambda (i a x) (+ a i)) $int $vec)
int: (dynamic-wind (lambda () (set! gx (+ gx 1))) (lambda () $int) (lambda () (set! gx (- gx 1))))
int: (force (delay $int))
int: (let ((p (delay $int))) (+ (force p) (force p)))
int: (pt-x (make-pt $int $int))
int: (let ((p (make-pt $int $int))) (set-pt-y! p $int) (pt-y p))
int: (eval '(+ 1 2 3) (interaction-environment))
int: (eval (list '+ $int $int) (interaction-environment))
int: (length* $list)
int: (let ((p (open-input-string $str))) (let loop ((n 0)) (if (eof-object? (read-char p)) n (loop (+ n 1)))))
int: (string-hash $str 1000)
int: (if $bool $int $int)
int: (begin (set! gx $int) gx)
int: (letrec ((f (lambda (n acc) (if (<= n 0) acc (f (- n 1) (cons n acc)))))) (length (f $small '())))
str: (string-copy $str)
str: (string-append $str $str)
str: (string-append $str $str $str)
str: (let ((s $str)) (substring s (min 1 (string-length s)) (string-length s)))
str: (let ((s $str)) (substring s 0 (quotient (string-length s) 2)))
str: (make-string $small $char)
str: (string $char $char $char)
str: (list->string $chars)
str: (symbol->string $sym)
str: (number->string $int)
str: (number->string $int $radix)
str: (let ((p (open-output-string))) (write $any p) (get-output-string p))
str: (let ((p (open-output-string))) (display $any p) (write-char $char p) (newline p) (get-output-string p))
str: (let ((p (open-output-string))) (write-with-shared-structure $any p) (get-output-string p))
str: (let* ((l $list) (p (open-output-string))) (write-with-shared-structure (list l l $any) p) (get-output-string p))
str: (format "~s|~a|~d" $any $any $int)
str: (format "~x ~o ~b" $int $int $int)
str: (format #f "~a~~~c~%~w" $str $char $any)
str: (format "~?" "<~s ~a>" (list $any $str))
str: (let ((s (string-copy $str))) (string-fill! s $char) s)
str: (let ((s (string-append $str "xyz"))) (string-set! s (modulo $pos (string-length s)) $char) s)
str: (let ((s (make-string 3 $char))) (string-set! s 0 $char) (string-set! s 2 $char) (string-append s $str))
str: (with-char-codec "UTF-8" (lambda () (string-append $str "")))
str: (if $bool $str $str)
char: (string-ref (string-append $str "q") 0)
char: (let ((s (string-append "a" $str))) (string-ref s (- (string-length s) 1)))
char: (char-upcase $char)
char: (char-downcase $char)
char: (integer->char (char->integer $char))
char: (read-char (open-input-string (string-append $str "w")))
char: (let ((p (open-input-string (string-append $str "vw")))) (peek-char p) (read-char p) (read-char p))
char: (if $bool $char $char)
sym: (string->symbol $str)
sym: (string->symbol (string-append "gen-" $str))
sym: (if $bool $sym $sym)
sym: (car (list $sym $any))
bool: (eq? $sym $sym)
bool: (equal? $any $any)
bool: (eqv? $int $int)
bool: (equal? $vec $vec)
bool: (string=? $str $str)
bool: (string<? $str $str)
bool: (string-ci=? $str $str)
bool: (char<? $char $char)
bool: (char-alphabetic? $char)
bool: (< $int $int $int)
bool: (= $int $int)
bool: (list? $any)
bool: (symbol? $any)
bool: (vector? $any)
bool: (every number? $ints)
bool: (any even? $ints)
bool: (hash-table-exists? $hash $key)
bool: (sorted? $ints <)
bool: (let ((p (open-input-string $str))) (char-ready? p))
bool: (and $bool $any $bool)
bool: (or $bool $bool)
bool: (pt? $any)
bool: (lset<= equal? $list $list)
bool: (procedure? $any)
bool: (zero? (bitwise-and 1 $int))
list: (list $any $any $any)
list: (cons $any $list)
list: (append $list $list)
list: (append $list (list $any) $list)
list: (reverse $list)
list: (map (lambda (x) (list x $any)) $list)
list: (map (lambda (x y) (cons x y)) $list $list)
list: (map + $ints $ints)
list: (filter symbol? $list)
list: (remove pair? $list)
list: (delete $any $list)
list: (delete-duplicates $list equal?)
list: (call-with-values (lambda () (partition number? $list)) list)
list: (vector->list $vec)
list: (string->list $str)
list: (list-tabulate $small (lambda (i) (* i $int)))
list: (iota $small $int 3)
list: (let ((l $list)) (list-tail l (quotient (length l) 2)))
list: (let ((l $list)) (take l (quotient (length l) 2)))
list: (let ((l $list)) (drop-right l (quotient (length l) 2)))
list: (or (memv $int $ints) '())
list: (or (member $any $list) '())
list: (or (assq $sym $alist) '())
list: (or (assoc $key $alist) '())
list: (unfold (lambda (x) (> x 6)) (lambda (x) (list x $any)) (lambda (x) (+ x 1)) 1)
list: (unfold-right zero? number->string (lambda (x) (- x 1)) $small)
list: (append-map (lambda (x) (list x x)) $list)
list: (filter-map (lambda (x) (and (number? x) (list x))) $list)
list: (sort $ints <)
list: (sort (map string-length (list $str $str $str)) >)
list: (merge (sort $ints <) (sort $ints <) <)
list: (lset-union equal? $list $list)
list: (lset-intersection equal? $list $list)
list: (lset-difference equal? $list $list)
list: (zip $list $list)
list: (call-with-values (lambda () (split-at $ints (quotient (length '(1 2)) 2))) list)
list: (alist-copy $alist)
list: (alist-delete $key $alist)
list: (alist-cons $key $any $alist)
list: (sort (map (lambda (e) (cdr e)) (hash-table->alist $hash)) <)
list: (apply list $any $list)
list: (apply map list (list $list $list))
list: `(a ,$any ,@$list b . ,$list)
list: `(1 `(2 ,(3 ,$any ,@$list)) #(4 ,$any ,@$list))
list: ((lambda args args) $any $any $any)
list: (let ((k2 '())) (for-each (lambda (x) (set! k2 (cons x k2))) $list) k2)
list: (call-with-values (lambda () (apply values $list)) list)
list: (receive r (values $any $any) r)
list: (let ((l (list $any $any $any))) (set-car! (cdr l) $any) (set-cdr! (cddr l) $list) l)
list: (reverse! (list $any $any $any))
list: (append! (list $any) (list $any $any) $list)
list: (let ((p (open-input-string "(a b . (c #(1 2 \"s\") #\\x)) 'q"))) (list (read p) (read p) (eof-object? (read p))))
list: (let ((p (open-output-string))) (write $list p) (let ((r (read (open-input-string (get-output-string p))))) (list r)))
list: (and-let* ((x $list) ((pair? x)) (y (cdr x))) (list x y))
list: (cond ((assq $sym $alist) => (lambda (x) (list x x))) ((pair? $any) '(p)) (else $list))
list: (guard (e ((symbol? e) (list e)) ((string? e) (list 's e)) (#t (list 'other))) (raise $any))
list: (guard (e (#t (list 'caught))) (car $any) $list)
list: (guard (e (#t (list 'caught2))) (vector-ref $vec $int) $list)
list: (call-with-current-continuation (lambda (k) (map (lambda (x) (if (number? x) (k (list 'esc x)) x)) $list)))
list: (dynamic-wind (lambda () #f) (lambda () $list) (lambda () #t))
list: (let ((log '())) (dynamic-wind (lambda () (set! log (cons 'in log))) (lambda () (set! log (cons $any log))) (lambda () (set! log (cons 'out log)))) log)
list: (with-exception-handler (lambda (e) (list 'h)) (lambda () $list))
list: (call-with-current-continuation (lambda (k) (with-exception-handler (lambda (e) (k (list 'h e $any))) (lambda () (raise $any)))))
list: (let ((v (make-vector $small $any))) (vector-fill! v $any) (vector->list v))
list: (if $bool $list $list)
list: (let* (($bi $int) ($bl $list)) (cons $any $list))
list: (letrec (($bf (lambda (x) (cons x $list)))) ($bf $any))
list: (let ($bs (string-copy $str)) $list)
list: (integer->list (abs $int))
list: (list->list-dot $list)
list: (concatenate (list $list $list))
list: (call-with-values (lambda () (unzip2 (list (list $any $any) (list $any $any)))) list)
list: (call-with-values (lambda () (span number? $list)) list)
list: (pair-fold (lambda (p a) (cons (length p) a)) '() $list)
list: (vector-fold-right (lambda (i a x) (cons x a)) '() $vec)
list: (reverse-vector->list $vec)
list: (let ((ls '())) (vector-for-each (lambda (i x) (set! ls (cons (cons i x) ls))) $vec) ls)
list: (let ((h $hash)) (hash-table-set! h $key $int) (hash-table-update!/default h $key (lambda (x) (+ x 1)) 0) (hash-table-delete! h $key) (sort (map cdr (hash-table->alist h)) <))
vec: (vector $any $any $any)
vec: (list->vector $list)
vec: (make-vector $small $any)
vec: (vector-map (lambda (i x) (cons i x)) $vec)
vec: (vector-append $vec $vec)
vec: (vector-copy $vec)
vec: (vector-reverse-copy $vec)
vec: (let ((v (vector $any $any $any))) (vector-set! v 1 $any) v)
vec: (let ((v (vector $any $any $any))) (vector-swap! v 0 2) v)
vec: (let ((v (vector $any $any $any $any))) (vector-copy! v 1 (vector $any $any)) v)
vec: (vector-unfold (lambda (i x) (values (list i x) (+ x 2))) $small $int)
vec: (reverse-list->vector $list)
vec: `#(1 ,$any ,@$list)
vec: '#(1 (2 "three") #\4)
vec: (if $bool $vec $vec)
vec: (vector-concatenate (list $vec $vec))
ints: (list $int $int $int)
ints: (map (lambda (x) (* x 2)) $ints)
ints: (filter odd? $ints)
ints: (sort $ints <)
ints: (iota $small)
ints: (append $ints $ints)
chars: (string->list $str)
chars: (list $char $char)
chars: (map char-upcase $chars)
chars: (reverse $chars)
alist: (list (cons $key $any) (cons $sym $any))
alist: (map cons (list $key $key) (list $any $any))
alist: (alist-cons $key $any $alist)
key: $sym
key: $str
key: $small
hash: (alist->hash-table (list (cons $key $int) (cons $key $int)) equal?)
hash: (let ((h (make-hash-table equal? hash))) (for-each (lambda (k) (hash-table-set! h k $int)) (list $key $key $key $key)) h)
hash: (hash-table-copy $hash)
any: $int
any: $str
any: $char
any: $sym
any: $bool
any: $list
any: $list
any: $vec
any: (let (($bv $any)) $any)
any: (let* (($bi $int) ($bs $str)) $any)
any: (let (($bl $list) ($bn $int)) $any)
any: ((lambda (q1 . q2) (list q1 q2)) $any $list)
any: (begin $any $any)
any: (let () (define $bi $int) (define $bl $list) $any)
any: (if $bool $any $any)
any: (guard (e (#t 'any-caught)) $any)
any: (mac2 $any $any)
any: (mac1 $any)
"""

PRE = r"""
(use sscm-ext)
(use srfi-1)(use srfi-2)(use srfi-6)(use srfi-8)(use srfi-9)(use srfi-23)(use srfi-28)(use srfi-34)(use srfi-38)
(use srfi-48)(use srfi-60)
(require-extension (srfi 43 69 95))
(define gx 0)
(define-record-type pt (make-pt x y) pt? (x pt-x set-pt-x!) (y pt-y set-pt-y!))
(define list->list-dot (lambda (l) (if (pair? l) (cons (car l) 'dot) l)))
(define integer->list (lambda (n) (let loop ((n n) (a '())) (if (< n 10) (cons n a) (loop (quotient n 10) (cons (remainder n 10) a))))))
(define-macro mac1 (lambda (x) (list 'list x ''m x)))
(define-macro mac2 (lambda (x y) `(let ((mt ,x)) (cons mt (list ,y 'm2)))))
(define vf-show (lambda (x) (guard (e (#t (display "unshowable"))) (write x))))
"""

STRS = ['""', '"a"', '"abc"', '"hello world"', '"12"', '"-7"', '"é"', '"aé日本"', '"😀z"', '"A\\tB"', '"q\\"\\\\"', '"zz zz zz zz zz zz zz"']
CHARS = ["#\\a", "#\\Z", "#\\space", "#\\newline", "#\\0", "#\\é", "#\\日", "#\\x1f600", "#\\("]
SYMS = ["'a", "'b", "'c", "'long-symbol-name", "'|x|" if False else "'x1", "'+"]


def _load():
    t = {}
    for l in TEMPLATES.strip().split("\n"):
        ty, e = l.split(": ", 1)
        t.setdefault(ty, []).append(e)
    return t


T = _load()


class LG:
    def __init__(self, rng, budget):
        self.r, self.budget, self.nv = rng, budget, 0

    def leaf(self, ty, sc):
        r = self.r
        vs = [n for n, t in sc if t == ty]
        if vs and r.random() < 0.6:
            return r.choice(vs)
        if ty == "int":
            return str(r.choice([0, 1, 2, 5, -1, -3, 10, 100, 255, 65536, -70000, 123456789]))
        if ty == "small":
            return str(r.randint(0, 6))
        if ty == "pos":
            return str(r.randint(1, 40))
        if ty == "radix":
            return r.choice(["2", "8", "10", "16"])
        if ty == "str":
            return r.choice(STRS)
        if ty == "char":
            return r.choice(CHARS)
        if ty == "sym":
            return r.choice(SYMS)
        if ty == "bool":
            return r.choice(["#t", "#f"])
        if ty == "list":
            return r.choice(["'()", "'(1 2 3)", "'(a (b . c) \"d\")", "(list 1 'x \"y\")", "'(#\\a #(1) (2))"])
        if ty == "vec":
            return r.choice(["(vector)", "'#(1 2 3)", "(vector 1 'a)", "'#(a #(b) \"c\")"])
        if ty == "ints":
            return r.choice(["'(3 1 2)", "'()", "(list 5 4)", "'(7 -7 0 7)"])
        if ty == "chars":
            return r.choice(["'(#\\a #\\b)", "'()", "(list #\\日)"])
        if ty == "alist":
            return r.choice(["'((a . 1) (b . 2))", "'()", "'((1 . x) (\"s\" . y))"])
        if ty == "hash":
            return "(make-hash-table equal? hash)"
        if ty == "key":
            return r.choice(["'a", "'b", "1", "2", "\"s\""])
        return self.leaf(r.choice(["int", "str", "char", "sym", "bool", "list", "vec"]), sc)

    BT = {"bi": "int", "bn": "int", "bl": "list", "bs": "str", "bv": "vec", "bf": None}

    def e(self, ty, sc, d):
        r = self.r
        self.budget -= 1
        if ty in ("small", "pos", "radix") or d <= 0 or self.budget <= 0 or ty not in T:
            return self.leaf(ty, sc)
        if ty != "any" and r.random() < 0.15:
            return self.leaf(ty, sc)
        t = r.choice(T[ty])
        out = []
        i = 0
        sc = list(sc)
        names = {}
        pend = []
        while i < len(t):
            if t[i] == "$":
                j = i + 1
                while j < len(t) and t[j].isalpha():
                    j += 1
                h = t[i + 1:j]
                if h in self.BT:
                    if h not in names:
                        self.nv += 1
                        names[h] = "%s%d" % (h, self.nv % 7)
                        pend.append(h)
                        if t.startswith("(let ($bs"):
                            out.append("(" + names[h])
                            names["_"] = 1
                        else:
                            out.append(names[h])
                    else:
                        out.append(names[h])
                else:
                    out.append(self.e(h, sc, d - 1))
                    # a variable becomes visible (conservatively) at the body: after the bindings close
                    if "_" in names:
                        out.append(")")
                        del names["_"]
                i = j
            else:
                out.append(t[i])
                # the bindings of let forms are closed before the final hole
                if t[i] == " " and pend and t.rfind("$") == i + 1 and t[i + 1] == "$":
                    for h in pend:
                        if self.BT[h] and h != "bv":
                            sc = [x for x in sc if x[0] != names[h]] + [(names[h], self.BT[h])]
                    pend = []
                i += 1
        return "".join(out)


def expr(rng, budget=30, ty=None):
    g = LG(rng, budget)
    ty = ty or rng.choice(["any", "any", "list", "list", "str", "int", "vec", "alist", "bool", "char"])
    return g.e(ty, [], rng.randint(2, 7))


def exprs(rng, n, budget, maxlen=3000):
    out = []
    while len(out) < n:
        e = expr(rng, rng.randint(5, budget))
        if 12 < len(e) < maxlen:
            out.append(e)
    return out
