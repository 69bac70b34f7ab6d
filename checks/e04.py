"""E04: every call checks argument count and types."""
from checks import common
from vlib.check import Case

# name | argument kinds | a valid call's arguments.  "?" marks optional, "*" any number more (of that kind)
TABLE = r"""
eval any env | '(+ 1 2) (interaction-environment)
apply proc any* list | + 1 '(2)
scheme-report-environment five | 5
null-environment five | 5
interaction-environment |
pair? any | 1
cons any any | 1 2
car pair | '(1)
cdr pair | '(1)
set-car! pair! any | (list 1 2) 5
set-cdr! pair! any | (list 1 2) 5
caar pair | '((1))
cadr pair | '(1 2)
cdar pair | '((1))
cddr pair | '(1 2)
caddr pair | '(1 2 3)
cdddr pair | '(1 2 3)
caaar pair | '(((1)))
caadr pair | '(1 (1))
cadar pair | '((1 2))
cdaar pair | '(((1)))
cdadr pair | '(1 (1))
cddar pair | '((1 2))
caaaar pair | '((((1))))
cadddr pair | '(1 2 3 4)
cddddr pair | '(1 2 3 4)
cdaddr pair | '(1 2 (3))
cddadr pair | '(1 (2 3))
cdddar pair | '((1 2 3))
caaddr pair | '(1 2 (3))
caddar pair | '((1 2 3))
cadadr pair | '(1 (2 3))
cadaar pair | '(((1 2)))
caadar pair | '((1 (2)))
caaadr pair | '(1 ((2)))
cdaaar pair | '((((1))))
cdaadr pair | '(1 ((2)))
cdadar pair | '((1 (2)))
cddaar pair | '(((1 2)))
null? any | 1
list? any | 1
list any* | 1
length list | '(1 2)
reverse list | '(1 2)
list-tail pair idx2 | (list 1 2) 1
list-ref pair idx | (list 1 2) 1
memq any list | 9 '(1)
memv any list | 9 '(1)
member any list | 9 '(1)
assq any alist | 'z '((a . 1))
assv any alist | 9 '((1 . 1))
assoc any alist | 9 '((1 . 1))
eq? any any | 1 2
eqv? any any | 1 2
equal? any any | 1 2
not any | 1
boolean? any | 1
symbol? any | 1
symbol->string sym | 'abc
string->symbol str | "abc"
procedure? any | 1
map proc list list* | (lambda x x) '(1)
for-each proc list list* | (lambda x x) '(1)
call-with-current-continuation proc | (lambda (k) 1)
values any* | 1
call-with-values proc proc | (lambda () 1) (lambda x x)
dynamic-wind proc proc proc | (lambda () 1) (lambda () 2) (lambda () 3)
force pair | (delay 1)
+ int* | 1 2
* int* | 1 2
- int int* | 1 2
/ int int* | 6 2
= int int int* | 1 1
< int int int* | 1 2
> int int int* | 2 1
<= int int int* | 1 2
>= int int int* | 2 1
max int int* | 1 2
min int int* | 1 2
gcd int* | 4 6
lcm int* | 4 6
number? any | 1
integer? any | 1
zero? int | 0
positive? int | 0
negative? int | 0
odd? int | 0
even? int | 0
abs int | 0
quotient int nonzero | 1 2
modulo int nonzero | 1 2
remainder int nonzero | 1 2
expt int int | 2 3
number->string int radix? | 10 2
string->number str radix? | "10" 2
char? any | 1
char=? char char | #\a #\b
char<? char char | #\a #\b
char>? char char | #\a #\b
char<=? char char | #\a #\b
char>=? char char | #\a #\b
char-ci=? char char | #\a #\b
char-ci<? char char | #\a #\b
char-ci>? char char | #\a #\b
char-ci<=? char char | #\a #\b
char-ci>=? char char | #\a #\b
char-alphabetic? char | #\a
char-numeric? char | #\a
char-whitespace? char | #\a
char-upper-case? char | #\a
char-lower-case? char | #\a
char->integer char | #\a
integer->char int | 97
char-upcase char | #\a
char-downcase char | #\a
string? any | 1
make-string nat char? | 2 #\a
string char* | #\a
string-length str | "abc"
string-ref str idx | "ab" 1
string-set! str! idx char | (string-copy "ab") 1 #\z
string=? str str | "a" "b"
string<? str str | "a" "b"
string>? str str | "a" "b"
string<=? str str | "a" "b"
string>=? str str | "a" "b"
string-ci=? str str | "a" "b"
string-ci<? str str | "a" "b"
string-ci>? str str | "a" "b"
string-ci<=? str str | "a" "b"
string-ci>=? str str | "a" "b"
substring str idx2 idx2 | "ab" 1 2
string-append str* | "a" "b"
string->list str | "ab"
list->string charlist | '(#\a)
string-copy str | "a"
string-fill! str! char | (string-copy "ab") #\z
vector? any | 1
make-vector nat any? | 2 1
vector any* | 1
vector-length vec | (vector 1 2)
vector-ref vec idx | (vector 1 2) 1
vector-set! vec! idx any | (vector 1 2) 1 9
vector->list vec | (vector 1 2)
list->vector list | '(1 2)
vector-fill! vec! any | (vector 1 2) 9
input-port? port | (current-input-port)
output-port? port | (current-output-port)
current-input-port |
current-output-port |
open-input-string str | "abc"
open-output-string |
get-output-string ostrport | (open-output-string)
read iport? | (open-input-string "a")
read-char iport? | (open-input-string "a")
peek-char iport? | (open-input-string "a")
char-ready? iport? | (open-input-string "a")
eof-object? any | 1
close-input-port port | (open-input-string "a")
close-output-port port | (open-output-string)
write any oport? | 1 (open-output-string)
display any oport? | 1 (open-output-string)
newline oport? | (open-output-string)
write-char char oport? | #\a (open-output-string)
call-with-input-file filename proc | "/dev/null" (lambda (p) 1)
open-input-file filename | "/dev/null"
with-exception-handler proc proc | (lambda (e) 1) (lambda () 2)
open-output-file filename | "/dev/null"
load filename | "/dev/null"
logand int* | 1 2
logior int* | 1 2
logxor int* | 1 2
lognot int | 1
bitwise-if int int int | 1 2 3
logtest int int | 1 2
circular-list? any | 1
dotted-list? any | 1
last-pair pair | '(1 2)
length+ any | '(1 2)
map-in-order proc list list* | (lambda x x) '(1)
find-tail proc list | (lambda (x) #f) '(1)
symbol-bound? sym any? | 'car (interaction-environment)
write-with-shared-structure any oport? any* | 1 (open-output-string)
length* any | 1
provide str | "e04"
provided? str | "e04"
%%current-char-codec |
%%set-current-char-codec! codec | "UTF-8"
fixnum-width |
greatest-fixnum |
least-fixnum |
sscm-version |
%%pair-mutable? pair | (list 1)
%%string-mutable? str | "abc"
%%vector-mutable? vec | (vector 1)
format str any* | "abc"
%%error-object? any | 1
""".strip().split("\n")

VAL = {
    "int": ["5", "0", "-3"], "char": ["#\\a"], "str": ["\"str\"", "(string-copy \"s\")"], "sym": ["'sy"],
    "null": ["'()"], "list": ["(list 1 2)"], "alist": ["'((a . 1))"], "charlist": ["'(#\\a)"], "dotted": ["(cons 1 2)"],
    "vec": ["(vector 1 2)"], "bool": ["#t", "#f"], "proc": ["car", "(lambda (x) x)"],
    "iport": ["(open-input-string \"a\")"], "oport": ["(open-output-string)"], "eof": ["eof-obj"], "undef": ["undef-obj"],
    "record": ["rec-obj"], "kont": ["kont-obj"]}
# which sample kinds each argument kind accepts; anything else must be rejected
ACC = {
    "any": None, "int": {"int"}, "nat": {"int"}, "nonzero": {"int"}, "idx": {"int"}, "idx2": {"int"}, "radix": {"int"}, "five": {"int"},
    "char": {"char"}, "str": {"str"}, "sym": {"sym"}, "codec": {"str"}, "filename": {"str"},
    "pair": {"list", "alist", "charlist", "dotted"}, "list": {"null", "list", "alist", "charlist"},
    "alist": {"null", "alist"}, "charlist": {"null", "charlist"}, "vec": {"vec", "record"}, "proc": {"proc", "kont"},
    "env": {"null", "list", "alist", "charlist", "dotted"}, "port": {"iport", "oport"}, "iport": {"iport"}, "oport": {"oport"},
    "ostrport": {"oport"}}
ACC["list-len"] = ACC["list"]
# numbers inside the right type but outside the domain
OUT = {"nat": ["-1", "(- 0 1000)", "(least-fixnum)"], "nonzero": ["0"], "idx": ["-1", "2", "100", "(greatest-fixnum)", "(least-fixnum)"],
       "idx2": ["-1", "3", "100", "(greatest-fixnum)"], "radix": ["0", "1", "-2", "37", "(greatest-fixnum)"], "five": ["4", "0", "-5"]}
# known leniencies of the primitives themselves, outside the claim: (name, arg index, kind)
LENIENT = set()
SRFI1 = {"circular-list?", "dotted-list?", "last-pair", "length+", "map-in-order", "find-tail"}
PRE = common.PRE + """
(use srfi-60)(use srfi-38)(use srfi-28)(use srfi-9)
(define eof-obj (read-char (open-input-string "")))
(define undef-obj (if #f #f))
(define-record-type e04r (mk-e04r x) e04r? (x e04r-x))
(define rec-obj (mk-e04r 1))
(define kont-obj (call/cc (lambda (k) k)))
""".replace("call/cc", "call-with-current-continuation")


def split_args(s):
    """top-level expressions of a text"""
    out, depth, cur, i, instr = [], 0, "", 0, False
    while i < len(s):
        c = s[i]
        if instr:
            cur += c
            if c == "\\":
                i += 1
                cur += s[i]
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
            cur += c
        elif c == "#" and i + 1 < len(s) and s[i + 1] == "\\":
            cur += s[i:i + 3]
            i += 2
        elif c == " " and depth == 0:
            if cur:
                out.append(cur)
            cur = ""
        else:
            depth += (c == "(") - (c == ")")
            cur += c
        i += 1
    if cur:
        out.append(cur)
    return out


def parse():
    for l in TABLE:
        head, _, good = l.partition("|")
        name, *kinds = head.split()
        yield name, kinds, split_args(good.strip())


def kind_at(kinds, i, n):
    """the kind of argument i in a call of n arguments, or None"""
    k = 0
    for j, kd in enumerate(kinds):
        if kd.endswith("*"):
            rest = len(kinds) - j - 1
            if i < n - rest:
                return kd[:-1]
            return kinds[j + 1 + i - (n - rest)]
        if k == i:
            return kd.rstrip("?!")
        k += 1
    return None


def calls(name, kinds, good):
    """(call args, expected) pairs"""
    lo = sum(1 for k in kinds if k[-1] not in "?*")
    hi = None if any(k.endswith("*") for k in kinds) else len(kinds)
    yield good, "ok", "valid"
    # counts
    for n in range(lo):
        yield good[:n], "err", "few"
    if hi is not None:
        full = list(good)
        while len(full) < hi:
            full.append("1")
        for extra in (1, 2, 5):
            yield full + ["1"] * extra, "err", "many"
            yield full + [good[-1] if good else "'()"] * extra, "err", "many"
    # types
    for i in range(len(good)):
        kd = kind_at(kinds, i, len(good))
        acc = ACC.get(kd)
        if acc is None:
            continue
        for t, vs in VAL.items():
            if t in acc:
                continue
            if kd == "pair" and t == "record":
                pass
            for v in vs:
                yield good[:i] + [v] + good[i + 1:], "err", "type"
        for v in OUT.get(kd, []):
            yield good[:i] + [v] + good[i + 1:], "err", "domain"
        if kd in ("list", "alist", "charlist") and (name, i) not in LENIENT:
            bad = {"list": ["(cons 1 2)", "(cons 1 (cons 2 3))"], "alist": [], "charlist": ["'(#\\a . #\\b)", "'(#\\a 5)", "'(#\\a \"b\")"]}[kd]
            for v in bad:
                yield good[:i] + [v] + good[i + 1:], "err", "list"


SKIP = set()


def run(ctx):
    ctx.rule = ("every primitive is called with each smaller and larger argument count, each argument position with "
                "values of every other type and numbers outside its domain, and with valid arguments; user "
                "procedures of every arity shape are called with every count; the outcome must be an error exactly "
                "when the call is outside the domain, and mutators must leave their target as it was")
    ctx.assume = ["the table of signatures in checks/e04.py is the specification of the primitives' domains"]
    cases = []
    mutants = []
    for name, kinds, good in parse():
        for args, want, tag in calls(name, kinds, good):
            if (name, tuple(args)) in SKIP:
                continue
            body = "(%s)" % " ".join([name] + args)
            forms = [body]
            if args:
                forms.append("(apply %s (list %s))" % (name, " ".join(args)))
            for b in forms:
                if want == "ok":
                    cases.append(Case(b, ("ok", None, None), tag))
                else:
                    cases.append(Case(b, ("err", None, ""), tag))
            if want == "err" and name.endswith("!") and kinds and kinds[0].endswith("!") and args and args[0] == good[0]:
                b = "(let ((o %s)) (guard (e ((%%%%error-object? e) (equal? o %s))) (%s) 'accepted))" % (
                    args[0], args[0], " ".join([name, "o"] + args[1:]))
                mutants.append(Case(b, ("ok", "#t"), "effect"))
            if want == "err" and any(k.startswith("oport") for k in kinds):
                b = ("(let ((o (open-output-string))) (guard (e ((%%%%error-object? e) (get-output-string o))) (%s) 'accepted))"
                     % " ".join([name] + [a.replace("(open-output-string)", "o") for a in args]))
                mutants.append(Case(b, ("ok", '""'), "effect"))
    in1 = lambda c: any(("(%s " % n in c.body or "(%s)" % n in c.body or "(apply %s " % n in c.body) for n in SRFI1)
    ctx.run("san-compact", [c for c in cases if in1(c)], PRE + "(use srfi-1)")
    cases = [c for c in cases if not in1(c)]
    ctx.run("san-compact", cases, PRE)
    ctx.run("san-compact", mutants, PRE)
    ctx.run("san-fatty", cases + mutants, PRE)
    # user procedures
    r = ctx.rng
    user = []
    for req in range(0, 8):
        for rest in (False, True):
            ps = ["p%d" % i for i in range(req)]
            formals = "(%s%s)" % (" ".join(ps), " . r" if rest else "") if ps or not rest else "r"
            val = "(list %s%s)" % (" ".join(ps), " r" if rest else "")
            for n in range(0, 12):
                args = [str(100 + i) for i in range(n)]
                ok = n == req or (rest and n > req)
                want = None
                if ok:
                    lst = args[:req] + (["(%s)" % " ".join(args[req:])] if rest else [])
                    want = ("ok", "(%s)" % " ".join(lst), "")
                else:
                    want = ("err", None, "")
                lam = "(lambda %s (display \"\") %s)" % (formals, val)
                eff = "(lambda %s (display \"ran\") %s)" % (formals, val)
                a = " ".join(args)
                forms = ["(%s %s)" % (lam, a), "(apply %s (list %s))" % (lam, a),
                         "(let ((f %s)) (f %s))" % (lam, a), "(let () (define f %s) (f %s))" % (lam, a),
                         "(letrec ((f %s)) (f %s))" % (lam, a),
                         "(call-with-values (lambda () (values %s)) %s)" % (a, lam)]
                if n:
                    forms.append("(apply %s %s (list %s))" % (lam, args[0], " ".join(args[1:])))
                    forms.append("(apply %s %s '())" % (lam, a))
                    forms.append("(car (map %s %s))" % (lam, " ".join("(list %s)" % x for x in args)))
                if not ok:
                    forms.append("(%s %s)" % (eff, a))
                    forms.append("(apply %s (list %s))" % (eff, a))
                for f in forms:
                    user.append(Case(f, want, "user"))
    # arguments are evaluated (once, in order) or the error precedes them: T output is free, but the value is not
    ops = ["5", "\"s\"", "'a", "#t", "#\\a", "'()", "(vector 1)", "(list 1 2)", "(open-input-string \"a\")", "eof-obj",
           "undef-obj", "rec-obj", "(delay 1)", "(interaction-environment)"]
    for o in ops:
        for a in ("", "1", "1 2", ". 1"):
            user.append(Case("(%s %s)" % (o, a), ("err", None, ""), "operator"))
            user.append(Case("((if #t %s car) %s)" % (o, a), ("err", None, ""), "operator"))
        user.append(Case("(apply %s '())" % o, ("err", None, ""), "operator"))
        user.append(Case("(map %s '(1))" % o, ("err", None, ""), "operator"))
        user.append(Case("(for-each %s '(1))" % o, ("err", None, ""), "operator"))
        user.append(Case("(call-with-current-continuation %s)" % o, ("err", None, ""), "operator"))
    for i in range(5):
        for f in ("list", "+", "(lambda x x)", "car", "cons", "(lambda (a b c) a)", "vector"):
            user.append(Case("(%s %s . %d)" % (f, " ".join(str(k) for k in range(i)), i), ("err", None, ""), "improper"))
            user.append(Case("(apply %s %s '(1 . 2))" % (f, " ".join(str(k) for k in range(i))), ("err", None, ""), "improper"))
            user.append(Case("(apply %s %s)" % (f, " ".join(str(k) for k in range(1, i + 1))), ("err", None, ""), "improper"))
    # continuation arity
    user.append(Case("(+ 1 (call-with-current-continuation (lambda (k) (k))))", ("err", None, ""), "kont"))
    user.append(Case("(+ 1 (call-with-current-continuation (lambda (k) (k 1 2))))", ("err", None, ""), "kont"))
    user.append(Case("(+ 1 (call-with-current-continuation (lambda (k) (k 1))))", ("ok", "2", ""), "kont"))
    # many arguments
    for n in (10, 100, 1000, 5000):
        xs = " ".join(str(i) for i in range(n))
        s = n * (n - 1) // 2
        user.append(Case("(+ %s)" % xs, ("ok", str(s)), "wide"))
        user.append(Case("(apply + '(%s))" % xs, ("ok", str(s)), "wide"))
        user.append(Case("(length (list %s))" % xs, ("ok", str(n)), "wide"))
        user.append(Case("(apply + ((lambda (a . r) (cons a r)) %s))" % xs, ("ok", str(s)), "wide"))
        user.append(Case("((lambda (a b) a) %s)" % xs, ("err", None, ""), "wide"))
    ctx.run("san-compact", user, PRE)
    # random deep call errors: after any of them the interpreter still answers
    seq = []
    bad = [c for c in cases if c.exp[0] == "err"]
    for _ in range(ctx.n(300, 5000)):
        ks = r.sample(bad, 6)
        body = "(list %s)" % " ".join("(guard (e ((%%%%error-object? e) 'e) (else 'r)) %s)" % k.body for k in ks)
        seq.append(Case(body, ("ok", "(e e e e e e)", ""), "sequence"))
    ctx.run("san-compact", seq, PRE)
    ctx.minimum = 3000
