-------------------------------- MODULE PID --------------------------------
(* The PID step size controller, on a logarithmic scale: every positive      *)
(* quantity x is represented by U * log2(x), U = 120.                         *)
(*                                                                           *)
(* The environment chooses, attempt by attempt, the size of the error         *)
(* estimate relative to the tolerance (a power of two, zero or infinite) and  *)
(* whether somebody else (end of the interval, clipping) cut the step short.  *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Configs,   \* set of records, see Mk below
          Errs,      \* exponents n: the scaled error is 2^n; Zero and Inf are special
          Cuts,      \* by how much others shorten an attempt (0: not at all)
          MaxAtt, Zero, Inf, None

U == 120

VARIABLES cfg, len, e1, e2, atmin, hist, failed

vars == <<cfg, len, e1, e2, atmin, hist, failed>>

Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b

\* coefficients are in tenths, k is the order of the error estimate
B1 == cfg.p + cfg.i + cfg.d
B2 == -(cfg.p + 2 * cfg.d)
B3 == cfg.d
\* contribution of coefficient b/10 and error 2^n to the logarithm of the factor
Term(b, n) == -((U \div 10) * b * n) \div cfg.k

CapHi(x) == IF cfg.dtmax = None THEN x ELSE Mn(x, cfg.dtmax)
CapLo(x) == IF cfg.dtmin = None THEN x ELSE Mx(x, cfg.dtmin)

Init == /\ cfg \in Configs
        /\ len = CapLo(CapHi(cfg.dt0))
        /\ e1 = 0 /\ e2 = 0 /\ atmin = FALSE /\ hist = <<>> /\ failed = FALSE

Small(n) == n = Zero \/ (n # Inf /\ n < 0)     \* error estimate below the tolerance

\* safety factor and PID terms, clipped; an infinite error gives the smallest factor, a zero one the largest
Factor(n, keep) ==
  LET lo == IF keep THEN 0 ELSE cfg.fmin
      hi == IF keep THEN cfg.fmax ELSE cfg.safety
      raw == cfg.safety + Term(B1, n) + Term(B2, e1) + Term(B3, e2)
  IN  IF n = Zero THEN hi ELSE IF n = Inf THEN lo ELSE Mn(hi, Mx(lo, raw))

Attempt(n, cut) ==
  LET h == len - cut
      keep == Small(n) \/ (cfg.dtmin # None /\ atmin)
      fac == Factor(n, keep)
      d0 == CapHi(h + fac)
      fail == cfg.dtmin # None /\ ~cfg.force /\ d0 < cfg.dtmin
      d1 == IF cfg.dtmin # None /\ atmin /\ fac = 0 THEN cfg.dtmin ELSE d0
      known == IF n \in {Zero, Inf} THEN 0 ELSE n
  IN  /\ ~failed /\ Len(hist) < MaxAtt
      \* (a tie would be decided by rounding)
      /\ (cfg.dtmin # None /\ fac # 0) => d0 # cfg.dtmin
      /\ len' = CapLo(d1)
      /\ atmin' = (cfg.dtmin # None /\ d1 <= cfg.dtmin)
      /\ e1' = IF keep THEN known ELSE e1
      /\ e2' = IF keep THEN e1 ELSE e2
      /\ failed' = fail
      /\ hist' = Append(hist, [n |-> n, h |-> h, keep |-> keep, fail |-> fail, next |-> CapLo(d1)])
      /\ UNCHANGED cfg

Next == \E n \in Errs, c \in Cuts : Attempt(n, c)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* what the user relies on
Last == hist[Len(hist)]
Some == hist # <<>>
InRange == /\ cfg.dtmax # None => len <= Mx(cfg.dtmax, IF cfg.dtmin = None THEN cfg.dtmax ELSE cfg.dtmin)
           /\ cfg.dtmin # None => len >= cfg.dtmin
\* no step whose error exceeds the tolerance is kept, unless steps have become as small as they may be
TolKept == \A j \in 1..Len(hist) : hist[j].keep =>
             \/ Small(hist[j].n)
             \/ (cfg.dtmin # None /\ j > 1 /\ hist[j - 1].next <= cfg.dtmin)
\* every step within tolerance is kept
NotFussy == \A j \in 1..Len(hist) : Small(hist[j].n) => hist[j].keep
\* after a rejection the next attempt is really smaller, but not too much; after an acceptance it is no smaller
Shrinks == \A j \in 1..Len(hist) :
  LET a == hist[j] IN
    IF a.keep THEN /\ a.next >= Mn(a.h, IF cfg.dtmax = None THEN a.h ELSE cfg.dtmax)
                   /\ a.next <= Mx(a.h + cfg.fmax, IF cfg.dtmin = None THEN a.h ELSE cfg.dtmin)
    ELSE /\ (a.next <= a.h + cfg.safety \/ (cfg.dtmin # None /\ a.next = cfg.dtmin))
         /\ a.next >= Mn(a.h + cfg.fmin, IF cfg.dtmax = None THEN a.h + cfg.fmin ELSE cfg.dtmax)
\* the controller remembers accepted steps only
Accepted == SelectSeq(hist, LAMBDA a : a.keep)
Known(m) == IF m < 1 THEN 0 ELSE IF Accepted[m].n \in {Zero, Inf} THEN 0 ELSE Accepted[m].n
Memory == e1 = Known(Len(Accepted)) /\ e2 = Known(Len(Accepted) - 1)
\* asking for a failure at dtmin means never going on below it
NoForce == ~cfg.force /\ cfg.dtmin # None => \A j \in 1..Len(hist) - 1 : ~hist[j].fail

Done == failed \/ Len(hist) = MaxAtt
Emit == Done => PrintT("BEHAVIOUR " \o ToJson([cfg |-> cfg, hist |-> hist, first |-> CapLo(CapHi(cfg.dt0))]))
============================================================================
