"""E07: escapes run every dynamic-wind guard exactly once, in order."""
import os

from checks import common
from vlib import runner
from vlib.check import Case

FIXED = r"""
(let ((path '()) (c #f)) (let ((add (lambda (s) (set! path (cons s path))))) (dynamic-wind (lambda () (add 'connect)) (lambda () (add (call-with-current-continuation (lambda (c0) (set! c c0) 'talk1)))) (lambda () (add 'disconnect))) (reverse path)))
(call-with-current-continuation (lambda (k) (dynamic-wind (lambda () (T 1)) (lambda () (k 5)) (lambda () (T 2)))))
(call-with-current-continuation (lambda (k) (dynamic-wind (lambda () (T 1)) (lambda () (dynamic-wind (lambda () (T 2)) (lambda () (k 5)) (lambda () (T 3)))) (lambda () (T 4)))))
(dynamic-wind (lambda () (T 1)) (lambda () (call-with-current-continuation (lambda (k) (dynamic-wind (lambda () (T 2)) (lambda () (k 5)) (lambda () (T 3)))))) (lambda () (T 4)))
(guard (e (#t (T 9) e)) (dynamic-wind (lambda () (T 1)) (lambda () (raise 'x)) (lambda () (T 2))))
(guard (e (#t (T 9) 'err)) (dynamic-wind (lambda () (T 1)) (lambda () (car 5)) (lambda () (T 2))))
(dynamic-wind (lambda () (T 1)) (lambda () (raise 'x)) (lambda () (T 2)))
(dynamic-wind (lambda () (T 1)) (lambda () (car 'x)) (lambda () (T 2)))
(dynamic-wind (lambda () (car 1)) (lambda () (T 2)) (lambda () (T 3)))
(dynamic-wind (lambda () (T 1)) (lambda () (T 2)) (lambda () (car 3)))
(dynamic-wind (lambda () (T 1)) (lambda () (values 1 2)) (lambda () (T 2))) ==> error
(call-with-values (lambda () (dynamic-wind (lambda () (T 1)) (lambda () (values 1 2)) (lambda () (T 2)))) list)
(call-with-values (lambda () (call-with-current-continuation (lambda (k) (dynamic-wind (lambda () (T 1)) (lambda () (k 1 2 3)) (lambda () (T 2)))))) list)
(call-with-current-continuation (lambda (k) (dynamic-wind (lambda () (T 1)) (lambda () (k 1)) (lambda () (T 2) (k 2)))))
(call-with-current-continuation (lambda (k) (dynamic-wind (lambda () (T 1)) (lambda () (dynamic-wind (lambda () (T 2)) (lambda () (k 1)) (lambda () (T 3) (k 2)))) (lambda () (T 4) (k 3)))))
(call-with-current-continuation (lambda (o) (list (call-with-current-continuation (lambda (k) (dynamic-wind (lambda () (T 1)) (lambda () (k 2)) (lambda () (T 2) (o 5))))))))
(guard (e (#t (T e) 'g)) (dynamic-wind (lambda () (T 1)) (lambda () (raise 'a)) (lambda () (T 2) (raise 'b))))
(guard (e (#t (T e) 'g)) (dynamic-wind (lambda () (T 1)) (lambda () (dynamic-wind (lambda () (T 2)) (lambda () (raise 'a)) (lambda () (T 3) (raise 'b)))) (lambda () (T 4) (raise 'c))))
(guard (e (#t (T e) 'g)) (call-with-current-continuation (lambda (k) (dynamic-wind (lambda () (T 1)) (lambda () (k 1)) (lambda () (T 2) (raise 'b))))))
(list (guard (e (#t (T e) 'g)) (dynamic-wind (lambda () (T 1)) (lambda () (raise 'z)) (lambda () (T 2) (guard (f (#t (T f))) (raise 'b)) (T 3)))) (T 9))
(guard (e (#t 'outer)) (let ((kk #f)) (call-with-current-continuation (lambda (o) (call-with-current-continuation (lambda (k) (dynamic-wind (lambda () (T 1)) (lambda () (set! kk k) (k 2)) (lambda () (T 2) (o 5))))))) (kk 1)))
(call-with-values (lambda () (call-with-current-continuation (lambda (k) (k)))) list)
(+ 1 (call-with-current-continuation (lambda (k) (+ 10 (k 1)))))
(+ 1 (call-with-current-continuation (lambda (k) 10)))
(call-with-current-continuation (lambda (k) (for-each (lambda (x) (if (negative? x) (k x))) '(54 0 37 -3 245 19)) #t))
(call-with-current-continuation (lambda (k) (map (lambda (x) (if (= x 2) (k 'two) (T x x))) '(1 2 3))))
(call-with-current-continuation (lambda (k) (apply k '(7))))
(call-with-current-continuation (lambda (k) (with-exception-handler (lambda (e) (k (list 'caught e))) (lambda () (raise 'oops)))))
(call-with-current-continuation (lambda (k) (eval (list k 5) (interaction-environment))))
(let ((k2 (call-with-current-continuation (lambda (k) k)))) (if (procedure? k2) (guard (e ((%%error-object? e) 'dead) (else 'other)) (k2 5)) 'reentered))
(let ((kk #f)) (call-with-current-continuation (lambda (k) (set! kk k) 1)) (kk 2))
(let ((kk #f)) (dynamic-wind (lambda () (T 1)) (lambda () (call-with-current-continuation (lambda (k) (set! kk k)))) (lambda () (T 2))) (guard (e ((%%error-object? e) 'dead)) (kk 2)))
(let ((kk #f)) (call-with-current-continuation (lambda (out) (call-with-current-continuation (lambda (k) (set! kk k) (out 1))) (T 1))) (guard (e ((%%error-object? e) 'dead)) (kk 2)))
(let ((kk #f)) (guard (e (#t 'g)) (call-with-current-continuation (lambda (k) (set! kk k) (raise 1)))) (guard (e ((%%error-object? e) 'dead)) (kk 2)))
(call-with-current-continuation (lambda (a) (call-with-current-continuation (lambda (b) (dynamic-wind (lambda () (T 1)) (lambda () (b 1)) (lambda () (T 2) (a 'from-after))))) (T 3)))
(call-with-current-continuation (lambda (a) (dynamic-wind (lambda () (T 1) (a 'from-before)) (lambda () (T 2)) (lambda () (T 3)))))
(let loop ((i 0)) (if (< i 3) (begin (call-with-current-continuation (lambda (k) (dynamic-wind (lambda () (T i)) (lambda () (k 1)) (lambda () (T (* 10 i)))))) (loop (+ i 1))) 'done))
(letrec ((f (lambda (n k) (dynamic-wind (lambda () (T n)) (lambda () (if (= n 0) (k 'out) (f (- n 1) k))) (lambda () (T (* 10 n))))))) (call-with-current-continuation (lambda (k) (f 5 k))))
(force (delay (call-with-current-continuation (lambda (k) (dynamic-wind (lambda () (T 1)) (lambda () (k 4)) (lambda () (T 2)))))))
(dynamic-wind (lambda () (T 1)) (lambda () (T 2 'v)) (lambda () (T 3 'w)))
(let ((n 0)) (dynamic-wind (lambda () (set! n (+ n 1))) (lambda () (set! n (* n 10))) (lambda () (set! n (+ n 5)))) n)
(dynamic-wind 1 (lambda () (T 2)) (lambda () (T 3)))
(dynamic-wind (lambda () (T 1)) 2 (lambda () (T 3)))
(dynamic-wind (lambda () (T 1)) (lambda () (T 2)) 3)
"""


class W:
    def __init__(self, r, size):
        self.r = r
        self.n = 0
        self.k = 0
        self.size = size

    def t(self):
        self.n += 1
        return "(T %d)" % self.n

    def seq(self, ks, d, dead):
        return " ".join(self.e(ks, d, dead) for _ in range(self.r.choice([1, 1, 2, 3])))

    def e(self, ks, d, dead=()):
        r = self.r
        self.size -= 1
        if d <= 0 or self.size <= 0:
            c = r.random()
            if ks and c < 0.4:
                return "(%s (T %d %d))" % (r.choice(ks), self.bump(), r.randint(1, 9))
            if c < 0.5:
                return "(raise '%s)" % r.choice("abc")
            if c < 0.55:
                return "(car %d)" % r.randint(0, 9)
            return "(T %d %d)" % (self.bump(), r.randint(1, 99))
        c = r.random()
        d -= 1
        if c < 0.30:
            a = [self.t()]
            z = [self.t()]
            if r.random() < 0.08:
                a.append(self.e(ks, min(d, 1), dead))
            if r.random() < 0.12:
                z.append(self.e(ks, min(d, 1), dead))
            if r.random() < 0.1:
                z.insert(0, self.e(ks, min(d, 1), dead))
            return "(dynamic-wind (lambda () %s) (lambda () %s) (lambda () %s))" % (" ".join(a), self.seq(ks, d, dead), " ".join(z))
        if c < 0.48:
            k = "k%d" % self.kk()
            body = self.seq(ks + [k], d, dead)
            return "(call-with-current-continuation (lambda (%s) %s))" % (k, body)
        if c < 0.54 and ks:
            return "(%s %s)" % (r.choice(ks), self.e(ks, d, dead))
        if c < 0.64:
            cl = r.choice(["((symbol? e) %s)", "((eq? e 'a) %s)", "((%%%%error-object? e) %s)", "((memq e '(b c)) %s)", "(else %s)",
                           "((begin (T 0) #f) 1) (#t %s)"]) % self.seq(ks, d, dead)
            return "(guard (e %s) %s)" % (cl, self.seq(ks, d, dead))
        if c < 0.70:
            k = "k%d" % self.kk()
            return ("(call-with-current-continuation (lambda (%s) (with-exception-handler (lambda (x) %s (%s 'h)) (lambda () %s))))"
                    % (k, self.e(ks, min(d, 1), dead), k, self.seq(ks, d, dead)))
        if c < 0.76:
            return "(map (lambda (q) %s) '(1 2))" % self.seq(ks, d, dead)
        if c < 0.80:
            return "(let lp ((i 0)) (if (< i %d) (begin %s (lp (+ i 1))) i))" % (r.randint(1, 3), self.seq(ks, d, dead))
        if c < 0.84:
            return "(list %s %s)" % (self.e(ks, d, dead), self.e(ks, d, dead))
        if c < 0.88:
            # a continuation kept past its extent
            k = "k%d" % self.kk()
            return ("(let ((s #f)) (call-with-current-continuation (lambda (%s) (set! s %s) %s)) (guard (z ((%%%%error-object? z) (T %d 'dead))) "
                    "(s %d)))" % (k, k, self.seq(ks + [k], d, dead), self.bump(), r.randint(1, 9)))
        if c < 0.91:
            return "(force (delay (begin %s)))" % self.seq(ks, d, dead)
        if c < 0.94:
            return "(call-with-values (lambda () %s) (lambda v (T %d) (car v)))" % (self.e(ks, d, dead), self.bump())
        if c < 0.97:
            return "(apply (lambda (f) (f)) (list (lambda () %s)))" % self.seq(ks, d, dead)
        return "(if %s %s %s)" % (r.choice(["#t", "#f"]), self.e(ks, d, dead), self.e(ks, d, dead))

    def bump(self):
        self.n += 1
        return self.n

    def kk(self):
        self.k += 1
        return self.k


def gen(rng, n, size):
    out = []
    tries = 0
    while len(out) < n and tries < 10 * n:
        tries += 1
        w = W(rng, rng.randint(8, size))
        t = w.e([], rng.randint(3, 8))
        if "dynamic-wind" not in t or len(t) > 5000:
            continue
        r = common.expect(t)
        if r is None or "#<" in r[1] + r[2] or len(r[2]) > 20000:
            continue
        out.append((t,) + tuple(r))
    return out


# the dynamic state of the receiver comes back: %s leaves the extent in some way
LEAVES = [("5", "5", ""), ("(k 6)", "6", ""), ("(raise 'x)", "caught", ""), ("(car 1)", "caught", ""), ("(error \"e\")", "caught", ""),
          ("(vector-ref (vector 1) 5)", "caught", ""),
          ("(dynamic-wind (lambda () (T 1)) (lambda () (k 7)) (lambda () (T 2)))", "7", "<1><2>"),
          ("(dynamic-wind (lambda () (T 1)) (lambda () (raise 8)) (lambda () (T 2)))", "caught", "<1><2>"),
          ("(for-each (lambda (x) (if (= x 2) (k x))) '(1 2 3))", "2", ""),
          ("(guard (e ((number? e) (k 'n))) (raise 5))", "n", ""), ("(guard (e ((string? e) 1)) (raise 5))", "caught", "")]
STATES = [
    # extent, probe of the state afterwards, expected probe value, T output visible?
    ("(with-output-to-file \"w.tmp\" (lambda () %s))", "(eq? (current-output-port) out0)", False),
    ("(with-input-from-file \"r.tmp\" (lambda () %s))", "(eq? (current-input-port) in0)", True),
    ("(call-with-output-file \"w.tmp\" (lambda (p) %s))", "(eq? (current-output-port) out0)", True),
    ("(call-with-input-file \"r.tmp\" (lambda (p) %s))", "(eq? (current-input-port) in0)", True),
    ("(with-input-from-file \"r.tmp\" (lambda () (with-output-to-file \"w.tmp\" (lambda () %s))))",
     "(and (eq? (current-input-port) in0) (eq? (current-output-port) out0))", False),
    ("(with-exception-handler (lambda (e) (raise e)) (lambda () %s))", "(eq? 1 1)", True),
    ("(with-char-codec \"EUC-JP\" (lambda () %s))", "(string=? (%%current-char-codec) \"UTF-8\")", True),
    ("(with-char-codec \"ISO-8859-1\" (lambda () (with-char-codec \"Shift_JIS\" (lambda () %s))))", "(string=? (%%current-char-codec) \"UTF-8\")", True),
]
SPRE = """
(define out0 (current-output-port))(define in0 (current-input-port))
(let ((p (open-output-file "r.tmp"))) (write '(some data) p) (close-output-port p))
"""


def run(ctx):
    ctx.rule = ("random programs dense in nested dynamic-wind, escaping continuations, guards, handlers and kept "
                "continuations, every thunk tracing; trace, result and outcome compared with the reference "
                "interpreter; and each way of leaving an extent that changes the dynamic state, probed afterwards")
    ctx.assume = ["continuations are escape-only and guard clauses run before the guarded extent is left, as documented by the implementation"]
    ctx.run("san-compact", common.fixed(FIXED), common.PRE)
    for size in (15, 40, 80):
        cs = common.par(gen, ctx.n(3500, 60000), "%s/%d/%d" % (ctx.prop, ctx.seed, size), size)
        cases = [Case(b, (k, v if k != "err" else None, o), "winds-%d" % size) for b, k, v, o in cs]
        ctx.run("san-compact", cases, common.PRE)
        if size == 40:
            ctx.run("opt-compact", cases[:ctx.n(1500, 30000)], common.PRE)
            ctx.run("san-compact", cases[:ctx.n(600, 10000)], common.PRE, env={"VF_GC_INTERVAL": "5", "VF_GC_SEED": ctx.seed})
    ctx.run("san-compact", common.random_programs(ctx, ctx.n(1500, 20000), ("cont", "exc"), 0.02, 60, "typed",
                                                  must=("dynamic-wind",)), common.PRE)
    # dynamic state
    cases = []
    for ext, probe, vis in STATES:
        for leave, val, out in LEAVES:
            inner = ext.replace("%s", leave)
            for pre, post in (("", ""), ("(dynamic-wind (lambda () #f) (lambda () ", ") (lambda () #f))"), ("(car (map (lambda (q) ", ") '(1)))")):
                b = ("(let ((r (guard (e (#t 'caught)) (call-with-current-continuation (lambda (k) %s))))) (list r %s))"
                     % (pre + inner + post, probe.replace("%%", "%%")))
                cases.append(Case(b, ("ok", "(%s #t)" % val, out if vis else ""), "state"))
    # twice in a row, interleaved with others
    for _ in range(ctx.n(300, 3000)):
        parts, vals, outs = [], [], ""
        for _ in range(ctx.rng.randint(2, 5)):
            ext, probe, vis = ctx.rng.choice(STATES)
            leave, val, out = ctx.rng.choice(LEAVES)
            parts.append("(let ((r (guard (e (#t 'caught)) (call-with-current-continuation (lambda (k) %s))))) (list r %s))" % (
                ext.replace("%s", leave), probe))
            vals.append("(%s #t)" % val)
            outs += out if vis else ""
        cases.append(Case("(let* (%s) (list %s))" % (" ".join("(v%d %s)" % (i, p) for i, p in enumerate(parts)),
                                                     " ".join("v%d" % i for i in range(len(parts)))),
                          ("ok", "(%s)" % " ".join(vals), outs), "state-sequence"))
    ctx.run("san-compact", cases, common.PRE + SPRE)
    ctx.minimum = 3000
