(define vf-case
  (lambda (id thunk)
    (vf-tick)
    (display "\n@@B ") (display id) (newline)
    (let ((r (guard (e (#t (cons 'err e)))
               (cons 'ok (thunk)))))
      (if (eq? (car r) 'ok)
          (begin
            (display "\n@@R ok ")
            (vf-show (cdr r)))
          (vf-report-error (cdr r))))
    (display "\n@@E ") (display id) (newline)))
(define vf-show write)
(define vf-report-error
  (lambda (e)
    (if (%%error-object? e)
        (begin
          (display "\n@@R err ")
          (guard (e2 (#t (display "?")))
            (display (cadr e))))
        (begin
          (display "\n@@R raise ")
          (guard (e2 (#t (display "?"))) (write e))))))
