"""M04: arbitrary bytes through the reader, under every encoding and port kind."""
import os
import tempfile
import shutil

from checks import common
from checks.r02 import ATOMS, PUNCT, soup, mutate
from vlib import codec, dgen
from vlib import runner as R
from vlib.check import Case

PRE = r"""(use srfi-6)(use srfi-23)(use srfi-34)(use srfi-38)(use sscm-ext)
(define (in codec thunk)
  (let ((old (%%current-char-codec)))
    (%%set-current-char-codec! codec)
    (let ((r (guard (e (#t (%%set-current-char-codec! old) (raise e))) (thunk))))
      (%%set-current-char-codec! old) r)))
(define sound #t)
(define (touch x)
  (cond ((pair? x) (touch (car x)) (touch (cdr x)))
        ((vector? x) (touch (vector->list x)))
        ((string? x) (if (not (= (length (string->list x)) (string-length x))) (set! sound #f)))
        ((symbol? x) (if (not (eq? x (string->symbol (symbol->string x)))) (set! sound #f)))
        ((char? x) (if (not (char=? x (integer->char (char->integer x)))) (set! sound #f)))
        ((number? x) (if (not (= x (string->number (number->string x)))) (set! sound #f)))
        ((or (boolean? x) (null? x)) #t)
        (else (set! sound #f))))
(define (show x) (guard (e (#t #f)) (let ((p (open-output-string))) (write x p) (string-length (get-output-string p)))))
;; an error need not consume what it complains about
(define (skip p) (guard (e ((%%error-object? e) #f)) (read-char p)))
;; every read yields a datum, an error or the end; the end comes, and stays
(define (data p n)
  (let loop ((n n) (errs 0) (k 0))
    (if (< n 0) 'endless
      (let ((x (guard (e ((%%error-object? e) (list 'vf-err))) (list 'ok (read p)))))
        (cond ((eq? (car x) 'vf-err) (skip p) (loop (- n 1) (+ errs 1) k))
              ((eof-object? (cadr x)) (if (eof-object? (guard (e (#t e)) (read p))) 'end 'end-unstable))
              (else (guard (e ((%%error-object? e) 'ill)) (touch (cadr x))) (show (cadr x)) (loop (- n 1) errs (+ k 1))))))))
(define (chars p n)
  (let loop ((n n))
    (if (< n 0) 'endless
      (let ((x (guard (e ((%%error-object? e) (list 'vf-err))) (let* ((a (peek-char p)) (b (read-char p))) (list (if (or (equal? a b) (eof-object? a)) 'ok 'peek-differs) b)))))
        (cond ((eq? (car x) 'vf-err) (loop (- n 1)))
              ((eq? (car x) 'peek-differs) 'peek-differs)
              ((eof-object? (cadr x)) 'end)
              (else (loop (- n 1))))))))
;; reads and read-chars mixed
(define (mixed p n)
  (let loop ((n n) (i 0))
    (if (< n 0) 'endless
      (let ((x (guard (e ((%%error-object? e) (list 'vf-err))) (list 'ok (case (modulo i 5) ((0 3) (read p)) ((1) (read-char p)) ((2) (peek-char p) (read-char p)) (else (read p)))))))
        (cond ((eq? (car x) 'vf-err) (skip p) (loop (- n 1) (+ i 1)))
              ((eof-object? (cadr x)) 'end)
              (else (loop (- n 1) (+ i 1))))))))
(define (verdict r c0 heap0 n)
  (let ((used (- (vf-stat 0) c0)))
    (let ((s sound))
      (set! sound #t)
      (cond ((not (eq? r 'end)) r) ((not s) 'unsound) ((> used (+ 20000 (* 400 n))) (list 'used used)) ((equal? (read (open-input-string "(a \"b\" #\\c #(1))")) '(a "b" #\c #(1))) 'fine) (else 'broken)))))
(define (ck f codec n how)
  (let ((c0 (vf-stat 0)))
    (verdict (in codec (lambda () (let* ((p (open-input-file f)) (r (how p (+ n 2)))) (close-input-port p) r))) c0 0 n)))
(define (bytes f) (in "ISO-8859-1" (lambda () (let ((p (open-input-file f))) (let loop ((r '())) (let ((c (read-char p))) (if (eof-object? c) (begin (close-input-port p) (reverse r)) (loop (if (= 0 (char->integer c)) r (cons c r))))))))))
(define (cks f codec n how)
  (let* ((s (in "ISO-8859-1" (lambda () (list->string (bytes f))))) (c0 (vf-stat 0)))
    (verdict (in codec (lambda () (how (open-input-string s) (+ n 2)))) c0 0 n)))
;; the port's encoding is not the current one
(define (ckmix f codec other n how)
  (let ((c0 (vf-stat 0)))
    (verdict (let* ((p (in codec (lambda () (open-input-file f)))) (r (in other (lambda () (how p (+ n 2)))))) (close-input-port p) r) c0 0 n)))
;; a string of arbitrary bytes handled by the string procedures of another encoding
(define (ckstr f codec)
  (let* ((s (in "ISO-8859-1" (lambda () (list->string (bytes f)))))
         (t (lambda (th) (guard (e ((%%error-object? e) #f)) (th)))))
    (in codec (lambda ()
      (t (lambda () (string-length s))) (t (lambda () (string->list s))) (t (lambda () (string-ref s 0))) (t (lambda () (substring s 0 1)))
      (t (lambda () (string-append s s))) (t (lambda () (string->symbol s))) (t (lambda () (string->number s))) (t (lambda () (string-copy s)))
      (t (lambda () (string<? s "b"))) (t (lambda () (string-ci=? s s))) (t (lambda () (equal? s (string-copy s)))) (t (lambda () (show s)))
      (t (lambda () (string-set! s 0 #\a))) (t (lambda () (string-set! s 1 (integer->char (char->integer #\b))))) (t (lambda () (string-length s))) (t (lambda () (%%string-reconstruct! s)))
      (t (lambda () (string-fill! s #\z))) (t (lambda () (show s)))))
    (if (equal? (map (lambda (x) (* x x)) '(1 2 3)) '(1 4 9)) 'fine 'broken)))
(define (ckload f)
  (guard (e (#t #t)) (load f))
  (%%set-current-char-codec! "UTF-8")
  (if (equal? (read (open-input-string "(a \"日\" #\\c #(1))")) '(a "日" #\c #(1))) 'fine 'broken))
"""
LONG = [lambda n: b"(" * n, lambda n: b"(" * n + b")" * n, lambda n: b"'" * n, lambda n: b"#(" * n, lambda n: b"a" * n, lambda n: b'"' + b"x" * n + b'"', lambda n: b'"' + b"x" * n,
        lambda n: b'"' + b"\\" * n + b'"', lambda n: b"1" * n, lambda n: b"-" * n, lambda n: b"#\\" + b"a" * n, lambda n: b"#x" + b"f" * n, lambda n: b'"\\x' + b"0" * n + b'41;"',
        lambda n: b"; " + b"c" * n, lambda n: b"(a . " * n + b"b" + b")" * n, lambda n: b"`" * n + b"a", lambda n: b",@" * n, lambda n: b"( " * n, lambda n: b")" * n, lambda n: b"(a " * n,
        lambda n: "日".encode() * n, lambda n: b'"' + "日".encode() * n + b'"', lambda n: b"#" * n, lambda n: b"." * n, lambda n: b"\x00" * n, lambda n: b"\xff" * n, lambda n: b"\n" * n,
        lambda n: b"#;" * n, lambda n: b"#|" * n, lambda n: b"| " * n, lambda n: b"\x8f" * n, lambda n: b"\xe3\x81" * n, lambda n: b'"\\' + "日".encode() * n]
HEAD = [b"#! /usr/bin/env sscm\n", b"#! /usr/bin/env sscm -C EUC-JP\n", b"#! sscm -C Shift_JIS\n", b"#! x -C nosuch\n", b"#! ", b"#!\n", b"#! -C", b"#! -C \n", b"#! /usr/bin/sscm -C UTF-8 --foo\n", b"\xef\xbb\xbf",
        b"#! " + b"y" * 80 + b"\n", b"#! a b c d e f g h i j k l m\n", b"#! \"a b\" -C EUC-KR\n", b"#! \\\n", b"#! /usr/bin/env sscm -o nosuch\n"]
NAMES = codec.NAMES


def blob(r):
    """bytes and a preferred encoding"""
    name = r.choice(NAMES)
    z = r.random()
    enc = lambda cs: b"".join(codec.encode(name, c) if not isinstance(codec.encode(name, c), list) else bytes(codec.encode(name, c)) for c in cs)
    if z < 0.12:
        n = r.choice([1, 2, 3, 5, 10, 30, 100])
        b = bytes(r.randrange(256) for _ in range(n))
    elif z < 0.2:
        # mostly punctuation
        b = b"".join(r.choice([b"(", b")", b"#", b"\\", b'"', b";", b".", b"'", b",", b"@", b"`", b"|", b"\n", b" ", b"x", b"1", b"-", b"+", b"\x00", bytes([r.randrange(256)])]) for _ in range(r.choice([2, 4, 8, 20, 60])))
    elif z < 0.55:
        # text with characters of the encoding
        b = b""
        for _ in range(r.randint(1, 10)):
            y = r.random()
            if y < 0.6:
                cs = soup(r)
            else:
                g = dgen.G(r, codec.GEN[name], 60, name == "UTF-8")
                cs = dgen.text(r, g.datum(r.choice([1, 2, 3])), name == "UTF-8")
            if r.random() < 0.4:
                cs = mutate(r, cs)
            for c in cs + [32]:
                try:
                    b += bytes(codec.encode(name, c))
                except Exception:
                    b += bytes([c & 0xff])
    elif z < 0.62:
        b = r.choice(LONG)(r.choice([1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1500]))
        if r.random() < 0.3:
            b += r.choice(LONG)(r.choice([1, 2, 10]))
    elif z < 0.7:
        b = r.choice(HEAD) + "".join(r.choice(ATOMS) + r.choice(PUNCT) for _ in range(r.randint(0, 6))).encode("utf-8", "replace")
    else:
        b = "".join(r.choice(ATOMS + PUNCT) + r.choice(["", "", " "]) for _ in range(r.randint(1, 25))).encode("utf-8", "replace")
    # damage
    b = bytearray(b)
    for _ in range(r.choice([0, 0, 1, 1, 2, 5])):
        if not b:
            break
        i = r.randrange(len(b))
        y = r.random()
        if y < 0.3:
            b[i] = r.randrange(256)
        elif y < 0.5:
            del b[i]
        elif y < 0.7:
            b.insert(i, r.choice([0x80, 0x8e, 0x8f, 0xc2, 0xe3, 0xf0, 0xff, 0xfe, 0xa1, 0x00, 0x5c, 0x1b, 0x0d, 0xed, 0xc0, 0xfc, 0x40]))
        elif y < 0.85:
            del b[i:]
        else:
            b[i:i] = b[max(0, i - 8):i]
    return bytes(b[:6000]), name


def gen(r, n):
    out = []
    for _ in range(n):
        b, name = blob(r)
        if r.random() < 0.25:
            name = r.choice(NAMES)
        z = r.random()
        how = r.choice(["data", "data", "data", "mixed", "chars"])
        if z < 0.15:
            # symbols and strings of another encoding may not convert: only survival is judged
            e = '(if (memq (ckmix "%%s" "%s" "%s" %d %s) (quote (fine unsound))) (quote fine) (quote bad))' % (name, r.choice(NAMES), len(b), how)
        elif z < 0.5:
            e = '(ck "%%s" "%s" %d %s)' % (name, len(b), how)
        elif z < 0.8:
            e = '(cks "%%s" "%s" %d %s)' % (name, len(b), how)
        elif z < 0.88:
            e = '(ckstr "%%s" "%s")' % name
        else:
            # loading evaluates what it reads: nothing that rebinds or repeats
            if any(w in b for w in (b"define", b"set!", b"do", b"let", b"exit", b"load")):
                continue
            e = '(ckload "%s")'
        out.append((e, b))
    return out


def run(ctx):
    ctx.rule = ("byte strings (random, punctuation, text of each encoding, long tokens, preludes; damaged by substitution, truncation, insertion) read to the end through file "
                "ports, string ports, load and the string procedures under each of six encodings; every read must give a datum made of well-formed objects, an error or the end, "
                "reach the end within as many reads as there are bytes, keep allocation linear, and leave the reader working; distinct by bytes and way of reading")
    ctx.assume = ["nesting up to 1500 levels only: deeper nesting needs more C stack"]
    d = tempfile.mkdtemp(prefix="vf-m04-")
    try:
        items = common.par(gen, ctx.n(30000, 500000), "M04/%d" % ctx.seed)
        cs = []
        step = 40000
        for o in range(0, len(items), step):
            cs = []
            for i, (e, b) in enumerate(items[o:o + step]):
                f = os.path.join(d, "b%d" % i)
                with open(f, "wb") as fh:
                    fh.write(b)
                c = Case(e % f, ("ok", "fine"), "mixed encodings" if e[1] == "i" else e.split()[0].strip("("))
                cs.append(c)
            judge = ctx.report

            def report(variant, c, x, m, prelude, kw, cases):
                # the bytes belong to the replay
                b = items[o + cs.index(c)][1]
                judge(variant, c, x, "%s\n  bytes: %s" % (m, b[:3000].hex()), prelude, kw, cases)
            ctx.report = report
            h = len(cs) // 2
            ctx.run("san-compact", cs[:h], PRE)
            ctx.run("san-fatty", cs[h:], PRE)
            ctx.run("san-compact", cs[h:h + h // 16], PRE + "(vf-gc-every 11 %d)" % ctx.seed, env={"VF_HEAP_SIZE": "1024"}, batch=40)
            ctx.run("san-hygienic", cs[:h // 6], PRE)
            ctx.run("mem-compact", cs[:h // 3], PRE)
            ctx.run("mem-fatty", cs[h:h + h // 3], PRE)
            ctx.report = judge
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.minimum = 10000
