"""C02: exhausted memory, heap limit and descriptors end in an orderly report, never in a wrong answer."""
import os
import random
import re

from checks import common
from concurrent.futures import ThreadPoolExecutor
from vlib import build as B, libgen, progen, runner as R
from vlib.check import Case

# What programs are made of: every kind of object with a buffer, the modules, loading, ports, errors.
PIECES = r"""
(show (let loop ((i 0) (a '())) (if (< i 60) (loop (+ i 1) (cons (number->string (* i i)) a)) (apply string-append a))))
(show (map (lambda (s) (string->symbol (string-append "sym%U-" s))) '("a" "bb" "ccc" "日本")))
(show (let ((p (open-input-string "(a \"b\\n\" #(1 2 #\\x) . (c d)) `(x ,y ,@z) 12 -7 \"日本語の長い文字列 and more than sixteen\" a-rather-long-symbol-name-for-the-token-buffer-of-the-reader")))
  (let loop ((x (read p)) (a '())) (if (eof-object? x) (reverse a) (loop (read p) (cons x a))))))
(show (let ((p (open-output-string))) (write '(1 "two" #\3 #(4 (5 . 6))) p) (display (make-string 300 #\z) p) (string-length (get-output-string p))))
(show (begin (call-with-output-file "f%U" (lambda (p) (write '(file "contents" 1 2 3) p) (newline p))) (call-with-input-file "f%U" (lambda (p) (list (read p) (read-char p) (eof-object? (read-char p)))))))
(show (begin (call-with-output-file "l%U.scm" (lambda (p) (write '(define loaded%U (lambda (x) (vector x x))) p))) (load (cwd-file "l%U.scm")) (loaded%U 3)))
(show (let ((s (make-string 5 #\a))) (string-set! s 2 #\日) (string-set! s 0 #\é) (string-fill! s #\x) (list s (string-copy "abc日") (substring "日本語" 1 2) (list->string '(#\a #\日)))))
(show (let ((v (make-vector 50 'x))) (vector-set! v 7 (list 1 2)) (vector-fill! v 3) (list (vector-length v) (vector->list (vector 1 2 3)) (list->vector '(a b)) (vector-ref v 49))))
(show (guard (e ((symbol? e) (list 'sym e)) ((string? e) e)) (dynamic-wind (lambda () (put 'in)) (lambda () (raise 'boom)) (lambda () (put 'out)))))
(show (guard (e (#t (list 'error (%%error-object? e)))) (vector-ref (vector 1 2) 10)))
(show (guard (e (#t 'again)) (guard (e2 ((number? e2) 'no)) (error "reason" 1 "two" '(3)))))
(show (call-with-current-continuation (lambda (k) (for-each (lambda (x) (if (negative? x) (k x))) '(1 2 -3 4)) 'none)))
(show (call-with-values (lambda () (values 1 2 3)) list))
(show (let ((p (delay (begin (put 'forced) 5)))) (list (force p) (force p))))
(define-record-type rec%U (make-rec%U a b) rec%U? (a rec%U-a set-rec%U-a!) (b rec%U-b))
(show (let ((r (make-rec%U 1 (list 2)))) (set-rec%U-a! r 9) (list (rec%U? r) (rec%U-a r) (rec%U-b r) (rec%U? 5))))
(define-macro (mac%U a . r) `(let ((t ,a)) (list t ,@r)))
(show (mac%U 1 2 (mac%U 3)))
(show (let ((h (make-hash-table equal? hash))) (let loop ((i 0)) (if (< i 40) (begin (hash-table-set! h (number->string i) i) (loop (+ i 1))))) (list (hash-table-size h) (hash-table-ref/default h "17" #f))))
(show (format "~a ~s ~d ~8,3F ~~ ~h" 'x "y" 12 3 ) )
(show (format #f "~a|~10,2F|~y" '(1 2) 3 '(a b)))
(show (sort '(3 1 2 9 5) <))
(show (fold cons '() (filter odd? (iota 30))))
(show (let ((l (list 1 2 3))) (set-cdr! (cddr l) l) (let ((p (open-output-string))) (write-with-shared-structure l p) (get-output-string p))))
(show (string->list (let loop ((i 0) (s "")) (if (< i 30) (loop (+ i 1) (string-append s (string (integer->char (+ 97 (modulo i 26)))))) s))))
(show (let loop ((i 0) (acc '())) (if (< i 400) (loop (+ i 1) (cons (make-vector 3 i) (if (= 0 (modulo i 50)) '() acc))) (length acc))))
(show (eval '(let ((x 1)) (define y 2) (+ x y)) (interaction-environment)))
(show (let-optionals* '(1) ((a 0) (b (* a 10)) . rest) (list a b rest)))
(show (and-let* ((x 5) ((< x 6)) (y (* x 2))) (list x y)))
(show (receive (a . b) (values 1 2 3) (list a b)))
(show `(1 ,@(map (lambda (x) (* x x)) '(2 3)) #(a ,(+ 1 1) ,@'(b c)) . tail))
(show (provided? "srfi-1"))
(show (list (logand 12 10) (expt 2 20) (quotient 17 5) (number->string 255 16) (string->number "777" 8)))
(show (begin (vf-gc) (string-length (make-string 2000 #\q))))
(show (with-input-from "g%U" "(from port) x" (lambda () (list (read) (read-char) (read)))))
(show (let ((cs (%%current-char-codec))) (with-char-codec "EUC-JP" (lambda () (string-length (string-append "日" "本"))))))
(show (vector-map + '#(1 2 3) '#(10 20 30)))
(show (let ((ls (list-copy '(5 3 4)))) (append! ls (list 1)) (reverse! ls)))
(show (string=? (symbol->string 'abc) (string #\a #\b #\c)))
(show (alist-delete 'b '((a . 1) (b . 2) (c . 3))))
""".strip()

BEGIN = r"""
(define (show x) (write x) (newline))
(define (put x) (display "<") (display x) (display ">"))
(define (cwd-file f) (string-append dir "/" f))
(define (with-input-from f text thunk) (call-with-output-file f (lambda (p) (display text p))) (with-input-from-file f thunk))
"""
# module, how it is written (with-char-codec and vector-map are optional)
USES = ["(use srfi-1)", "(use srfi-2)", "(use srfi-6)", "(use srfi-8)", "(use srfi-9)", "(use srfi-23)", "(use srfi-28)", "(use srfi-38)",
        "(use srfi-48)", "(use srfi-60)", "(use sscm-ext)", "(require-extension (srfi 69))", "(require-extension (srfi 95))", "(require-extension (srfi 43))"]


def pieces():
    out, cur, depth = [], "", 0
    for l in PIECES.split("\n"):
        cur += l + "\n"
        n = len(re.sub(r'"(\\.|[^"\\])*"|#\\.', "", cur))
        t = re.sub(r'"(\\.|[^"\\])*"|#\\.', "", cur)
        if t.count("(") == t.count(")"):
            out.append(cur.strip())
            cur = ""
    assert not cur, cur
    # a definition belongs to the use behind it
    res, pend = [], ""
    for p in out:
        if p.startswith("(define"):
            pend += p + "\n"
        else:
            res.append(pend + p)
            pend = ""
    return [p for p in res if "with-char-codec" not in p]


def program(r, heavy):
    ps = pieces()
    uid = "%04x" % r.randrange(1 << 16)
    mine = r.sample(ps, r.randint(6, 14) if not heavy else len(ps))
    text = "\n".join(USES) + BEGIN
    text += progen.PRELUDE
    for i, p in enumerate(mine):
        text += p.replace("%U", "%s-%d" % (uid, i)) + "\n"
    if not heavy:
        for _ in range(3):
            e = progen.program(r, ("cont", "exc", "values", "delay"), 0.05, r.randint(10, 40))
            text += "(show (guard (e% (#t 'caught)) (list " + e + ")))\n" if "(define" not in e else ""
    return text


def execute(bdir, text, env, stats=None, cpu=60):
    with R.Scratch() as sd:
        f = os.path.join(sd, "prog.scm")
        with open(f, "w", encoding="utf-8") as fh:
            fh.write('(define dir "%s")\n' % sd + text)
        e = dict(env)
        e["VF_STATS"] = os.path.join(sd, "stats")
        p = R.run_proc([os.path.join(bdir, "drv"), "--system-load-path", R.LIB, f], env=e, cwd=sd, cpu=cpu)
        p.st = {}
        try:
            for kv in open(os.path.join(sd, "stats")).read().split():
                k, v = kv.split("=")
                p.st[k] = int(v)
        except (OSError, ValueError):
            pass
    return p


WORDS = {"mem": ("memory exhausted",), "heap": ("heap exhausted", "memory exhausted"),
         "size": ("too large heap size", "heap exhausted", "memory exhausted")}


def judge(p, base, kind):
    """None if the run was the fault-free one or an orderly report behind a prefix of it."""
    if p.timeout or p.cpu:
        return "did not end", None
    san = R.san_summary(p.err)
    if san:
        return san, None
    if p.rc == 0 and p.out == base:
        return None, "completed"
    if b"\n@@FATAL\n" in p.out:
        i = p.out.index(b"\n@@FATAL\n")
        if p.rc != 70:
            return "exit status %d after the report" % p.rc, None
        if not base.startswith(p.out[:i]):
            return "the output before the report differs from the fault-free run: ...%r" % p.out[:i][-150:], None
        err = p.err.decode("utf-8", "replace")
        if not any(w in err for w in WORDS[kind]):
            return "the report does not say what was exhausted: %r" % err[-200:], None
        return None, "reported after output" if i > 1 else "reported before output"
    if p.rc == 1 and not p.out and any(w in p.err.decode("utf-8", "replace") for w in WORDS[kind]):
        return None, "reported while initialising"
    return "exit %d, %s; out ...%r err ...%r" % (p.rc, "wrong output" if p.rc == 0 else "no orderly report", p.out[-150:], p.err[-200:]), None


FDS = r"""
(use srfi-34)
(define (try-open n) (guard (e (#t 'err)) (open-input-file "data")))
(call-with-output-file "data" (lambda (p) (write '(d a t a) p)))
(define (one k)
  (let* ((ps (map try-open (iota 120)))
         (good (filter (lambda (p) (not (eq? p 'err))) ps))
         (bad (- 120 (length good)))
         (texts (map read good)))
    (let ((caught (guard (e (#t (list 'again (%%error-object? e)))) (open-output-file "more"))))
      (for-each (lambda (p) (close-input-port p)) good)
      (list k (> bad 20) (> (length good) 20) (filter (lambda (x) (not (equal? x '(d a t a)))) texts) caught
        (call-with-input-file "data" read)))))
(display "\n@@B 1\n")
(write (map one '(1 2 3 4 5)))
(display "\n@@E 1\n")
(define (drop k) (let ((ps (map try-open (iota 120)))) (length ps)))
(define (cycle k) (drop k) (vf-gc) (vf-gc) (call-with-input-file "data" read))
(define (deep k) (if (= k 0) 0 (+ 1 (deep (- k 1)))))
(write (map (lambda (k) (drop k) (deep 500) (vf-gc) (guard (e (#t 'still)) (call-with-input-file "data" read))) '(1 2 3 4 5 6)))
(display "\n@@E 2\n")
"""


def run(ctx):
    ctx.rule = ("a case is (program, fault): programs of 6-40 pieces covering every object with a buffer, modules, loading, ports, errors and "
                "random expressions; faults: the Nth allocation fails (once, or it and all later ones), N swept over the run from process start; "
                "at most k heaps of n cells; distinct by program, fault kind and position; non-trivial when the fault occurred")
    ctx.assume = ["exhaustion of the C stack is not injected", "allocation inside libc is not made to fail"]
    r = ctx.rng
    jobs = []
    variants = ("san-compact", "san-fatty", "san-hygienic")
    progs = []
    for i in range(ctx.n(6, 24)):
        heavy = i == 0
        progs.append(program(random.Random("%s/%d" % (ctx.seed, i)), heavy))
    dirs = {v: B.build(v, ("drv",)) for v in variants}
    ctx.seen_states = set()
    with ThreadPoolExecutor(R.NPROC) as ex:
        bases = {}
        for i, text in enumerate(progs):
            t = text
            for v in variants:
                if v == "san-hygienic":
                    # records and the file modules overflow the stack of that build
                    t = "\n".join(l for l in text.split("\n") if "srfi 69" not in l and "srfi 95" not in l and "srfi 43" not in l and "rec" not in l
                                  and "hash-table" not in l and "sort" not in l and "vector-map" not in l and "(use srfi-9)" not in l)
                bases[i, v] = (t, ex.submit(execute, dirs[v], t, {}))
        for (i, v), (t, f) in bases.items():
            p = f.result()
            san = R.san_summary(p.err)
            if san or p.rc or b"@@DONE" not in p.out:
                if san or p.rc < 0:
                    ctx.violation("base", "without a fault, %s: exit %d %s" % (v, p.rc, san or p.err[-300:]), t)
                    continue
                raise R.HarnessError("C02 program fails without a fault: %s %r %r" % (v, p.err[-400:], p.out[-200:]))
            n = p.st.get("mallocs")
            rr = random.Random("%s/%d/%s/f" % (ctx.seed, i, v))
            total = ctx.n(220, 2500)
            # initialisation is the larger part of a run: lean to the end
            at = set(int(n * rr.random() ** 0.4) + 1 for _ in range(total))
            if i == 0:
                at |= set(range(1, min(n, 60)))
            for k in sorted(at):
                jobs.append((v, t, p.out, "mem", {"VF_FAIL_AT": k, "VF_FAIL_STICKY": int(rr.random() < 0.3)}, i))
            for _ in range(ctx.n(20, 200) if i < 2 else 0):
                # sizes no machine has, around the points where they stop fitting a word
                b = rr.randint(42, 63)
                hs = (1 << b) + rr.choice([0, 0, 1, -1, 1 << rr.randint(0, 10), 1 << (b - 1)])
                e = {"VF_HEAP_SIZE": hs, "VF_HEAPS_MAX": 1, "VF_HEAPS_INIT": 1}
                if rr.random() < 0.6:
                    # as many heaps as a pointer has room for, each of them a reasonable size
                    q = rr.choice([0x400, 0x1000, 0x4000, 0x10000])
                    e = {"VF_HEAP_SIZE": q, "VF_HEAPS_MAX": rr.choice([1 << 63, (1 << 64) - 1, (hs << 1) // q * rr.randint(1, 8) + rr.randint(0, 3)]), "VF_HEAPS_INIT": 1}
                    e["VF_HEAPS_MAX"] %= 1 << 64
                    if rr.random() < 0.5:
                        e = {"VF_HEAP_SIZE": q << 30, "VF_HEAPS_MAX": e["VF_HEAPS_MAX"] | 1, "VF_HEAPS_INIT": rr.choice([1, 1 << 40, 1 << 63])}
                jobs.append((v, t, p.out, "size", e, i))
            for _ in range(ctx.n(24, 250)):
                hs = rr.choice([0x100, 0x400, 0x800, 0x1000, 0x2000])
                # around what the program needs, sometimes far less
                need = max(2, 0x4000 * p.st.get("heaps", 1) // hs)
                mx = rr.randint(1, 6) if rr.random() < 0.1 else rr.randint(need // 4 + 1, need + 2)
                jobs.append((v, t, p.out, "heap", {"VF_HEAP_SIZE": hs, "VF_HEAPS_MAX": mx, "VF_THRESH": rr.choice([0, 0, 1, hs // 8, hs // 4, hs // 2])}, i))
        res = list(ex.map(lambda j: execute(dirs[j[0]], j[1], j[4]), jobs, chunksize=4))
    for (v, t, base, kind, env, i), p in zip(jobs, res):
        msg, how = judge(p, base, kind)
        if msg and ("hang" in msg or msg == "did not end"):
            p = execute(dirs[v], t, env)
            msg, how = judge(p, base, kind)
        ctx.count("%s %s" % (v, kind), "%s/%d/%s" % (v, i, sorted(env.items())))
        ctx.kinds[how or "bad"] = ctx.kinds.get(how or "bad", 0) + 1
        for k, n in p.st.items():
            if k in ("allocs", "gcs", "failed"):
                ctx.stats[k] = ctx.stats.get(k, 0) + n
        if msg:
            ctx.violation("%s:%s" % (kind, re.sub(r"0x[0-9a-f]+|\d+", "N", msg)[:100]), "%s %s: %s" % (v, env, msg),
                          ";; run with %s\n%s" % (env, t))
    # descriptors
    for v in variants:
        with R.Scratch() as sd:
            f = os.path.join(sd, "fds.scm")
            open(f, "w").write("(use srfi-1)\n" + FDS)
            p = R.run_proc(["/bin/sh", "-c", "ulimit -n 64; exec \"$@\"", "sh", os.path.join(dirs[v], "drv"), "--system-load-path", R.LIB, f], cwd=sd, cpu=60)
        out = p.out.decode("utf-8", "replace")
        want = "(%s)" % " ".join("(%d #t #t () (again #t) (d a t a))" % k for k in range(1, 6))
        ctx.count(v + " descriptors", v)
        san = R.san_summary(p.err)
        got = out[out.find("@@B 1\n") + 6:out.find("\n@@E 1")]
        rest = out[out.find("@@E 1\n") + 6:out.find("\n@@E 2")]
        if san or got != want or p.rc:
            ctx.violation("fds", "%s: exit %d %s got %s" % (v, p.rc, san, got[:300]), FDS)
        elif rest.count("(d a t a)") < 4:
            ctx.violation("fds-gc", "%s: descriptors of dropped ports do not come back after collections: %s" % (v, rest[:200]), FDS)
    if jobs:
        j = jobs[r.randrange(len(jobs))]
        ctx.sample("%s %s on a program of %d bytes" % (j[0], j[4], len(j[1])))
    ctx.minimum = 1000
