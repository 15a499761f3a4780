------------------------------ MODULE Integrate ------------------------------
(***************************************************************************)
(* The differential-equation solve loop: time stepping with accept/reject, *)
(* saving, dense output, events (with and without localisation), outcome   *)
(* reporting, and stop/resume.                                             *)
(*                                                                         *)
(* Time is measured in integer "ticks" from the start of the solve, along  *)
(* the direction of integration (so that forward and backward solves have  *)
(* the same behaviours; the harness maps ticks to user times both ways).   *)
(*                                                                         *)
(* The numerical method and the step size controller are adversarial       *)
(* environment: the controller's verdict at each attempt is chosen         *)
(* nondeterministically (and recorded in `script', so that the behaviour   *)
(* can be replayed into the implementation); the numerical method is a     *)
(* fixed integer function of everything a real method may depend on        *)
(* (time, state, its own memory, the jump flag), so any corruption of      *)
(* any of those inputs changes the numbers that come out.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  MaxSteps,     \* attempts allowed; 0 means unlimited
  T1s,          \* possible ends of the interval (0 = degenerate interval)
  Y0s,          \* possible initial values
  Dt0s,         \* possible first step sizes
  Dts,          \* step sizes the controller may propose
  Keeps,        \* subset of BOOLEAN: verdicts the controller may give
  Gaps,         \* gaps left by a jump (0 = no jump; g>0 = jump, resuming g-1 ticks later)
  CFails,       \* subset of BOOLEAN: may the controller report failure
  BadWidths,    \* the method reports failure on steps of this width (0 = never)
  Subs,         \* sequence of saving requests
  TsChoices,    \* requested save times, as functions of the interval's end
  EvCfgs,       \* set of sequences of event conditions
  RootFind,     \* BOOLEAN: localise events
  DenseTimes,   \* times at which dense output is consulted
  Tag           \* string printed with every behaviour

VARIABLES
  pc,        \* "run", "post", "done"
  cfg,       \* the problem: [t1, y0, dt0, badw, ts, evs]
  tp, tn, y, ss, mj,         \* position, proposal, state, method memory, jump flag
  ns, na, nr, res,           \* statistics and outcome
  saves, tsi,                \* per request: entries, next requested time
  dense,                     \* accepted pieces
  evv, evm,                  \* last event values (doubled), event mask
  lastPiece,                 \* the most recent attempt (used to localise events)
  script, acc, att, fin      \* history: controller verdicts, accepted steps, attempts, end

vars == <<pc, cfg, tp, tn, y, ss, mj, ns, na, nr, res, saves, tsi, dense, evv, evm,
          lastPiece, script, acc, att, fin>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
B(b) == IF b THEN 1 ELSE 0

(* --- rationals <<num, den>> with den > 0 ------------------------------- *)
R(x) == <<x, 1>>
RNorm(n, d) == IF d < 0 THEN <<-n, -d>> ELSE <<n, d>>
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RLe(a, b) == ~RLt(b, a)
REq(a, b) == a[1] * b[2] = b[1] * a[2]

(* --- the numerical method ---------------------------------------------- *)
Slope(t0, t1, yy, s, j) == ((yy + 2 * s + 3 * B(j) + t0 + 5 * (t1 - t0)) % 7) - 3
NextSS(s, j) == (2 * s + 3 * B(j) + 1) % 11
Piece(t0, t1, yy, s, j) ==
  LET k == Slope(t0, t1, yy, s, j)
  IN [t0 |-> t0, t1 |-> t1, y0 |-> yy, k |-> k, y1 |-> yy + (t1 - t0) * k, mj |-> j, ss |-> s]
\* value of a piece at rational time
PieceAt(p, t) == <<p.y0 * t[2] + (t[1] - p.t0 * t[2]) * p.k, t[2]>>

(* --- saved entries ------------------------------------------------------ *)
\* fn = "y": save the state;  fn = "ty": save 1000*t + y
Val(fn, t, v) == IF fn = "y" THEN v
                 ELSE <<1000 * t[1] * v[2] + v[1] * t[2], t[2] * v[2]>>
Entry(sub, t, v) == [t |-> t, v |-> Val(sub.fn, t, v)]

TsOf(c, i) == IF Subs[i].ts THEN c.ts ELSE <<>>
SubIds == 1..Len(Subs)

(* --- events ------------------------------------------------------------- *)
\* doubled value of event condition e at (t, y)
EvVal(e, t, yy) == (IF e.on = "y" THEN 2 * yy ELSE 2 * t) - e.thr2
EvTrig(e, old, new) ==
  IF e.kind = "bool" THEN new >= 0
  ELSE CASE e.dir = "any"  -> Sign(old) # Sign(new)
         [] e.dir = "up"   -> old <= 0 /\ new > 0
         [] e.dir = "down" -> old > 0 /\ new <= 0
FirstTrue(m) == [i \in 1..Len(m) |-> m[i] /\ \A j \in 1..(i - 1) : ~m[j]]
AnyTrue(m) == \E i \in 1..Len(m) : m[i]

(* --- results ------------------------------------------------------------ *)
Okay(r) == r \in {"successful", "event_occurred"}

------------------------------------------------------------------------------
Cfgs == {[t1 |-> t1, y0 |-> y0, dt0 |-> d, badw |-> w, ts |-> ts, evs |-> ev] :
           t1 \in T1s, y0 \in Y0s, d \in Dt0s, w \in BadWidths,
           ts \in UNION {TsChoices[x] : x \in T1s}, ev \in EvCfgs}

Init ==
  \E t1 \in T1s, y0 \in Y0s, d \in Dt0s, w \in BadWidths, ev \in EvCfgs :
  \E ts \in TsChoices[t1] :
  LET c == [t1 |-> t1, y0 |-> y0, dt0 |-> d, badw |-> w, ts |-> ts, evs |-> ev]
      v0 == [i \in 1..Len(ev) |-> EvVal(ev[i], 0, y0)]
      m0 == FirstTrue([i \in 1..Len(ev) |-> ev[i].kind = "bool" /\ v0[i] >= 0])
  IN /\ pc = "run"
     /\ cfg = c
     /\ tp = 0 /\ tn = Min(d, t1)
     /\ y = y0 /\ ss = 0 /\ mj = FALSE
     /\ ns = 0 /\ na = 0 /\ nr = 0
     /\ evv = v0 /\ evm = m0
     /\ res = IF AnyTrue(m0) THEN "event_occurred" ELSE "successful"
     /\ saves = [i \in SubIds |->
          IF Subs[i].t0 THEN <<Entry(Subs[i], R(0), R(y0))>> ELSE <<>>]
     /\ tsi = [i \in SubIds |-> 1]
     /\ dense = <<>>
     /\ lastPiece = [t0 |-> 0, t1 |-> 0, y0 |-> y0, k |-> 0, y1 |-> y0, mj |-> FALSE, ss |-> 0]
     /\ script = <<>> /\ acc = <<>> /\ att = <<>>
     /\ fin = [t |-> R(0), y |-> R(y0), res |-> "none"]

Going == tp < cfg.t1 /\ res = "successful"
Budget == MaxSteps = 0 \/ ns < MaxSteps

\* number of requested times (from index i) that a step ending at `te' covers
RECURSIVE Covered(_, _, _)
Covered(ts, i, te) == IF i <= Len(ts) /\ ts[i] <= te THEN 1 + Covered(ts, i + 1, te) ELSE 0

Attempt(keep, dt, gap, cfail) ==
  /\ pc = "run" /\ Going /\ Budget
  /\ LET p     == Piece(tp, tn, y, ss, mj)
         fails == cfg.badw # 0 /\ tn - tp = cfg.badw
         tpraw == IF keep THEN tn + Max(gap - 1, 0) ELSE tp
         tp2   == Min(tpraw, cfg.t1)
         tnraw == tpraw + dt
         \* overshooting the end: go exactly to the end after an accepted step;
         \* retry with half of what is left after a rejected one
         tn2   == IF tnraw >= cfg.t1
                  THEN IF keep THEN cfg.t1 ELSE tp2 + (cfg.t1 - tp2) \div 2
                  ELSE tnraw
         y2    == IF keep THEN p.y1 ELSE y
         na2   == na + B(keep)
         r1    == IF keep /\ fails THEN "nonlinear_divergence" ELSE res
         r2    == IF Okay(r1) /\ cfail THEN "dt_min_reached" ELSE r1
         v2    == [i \in 1..Len(cfg.evs) |-> EvVal(cfg.evs[i], tp2, y2)]
         m2    == FirstTrue([i \in 1..Len(cfg.evs) |-> EvTrig(cfg.evs[i], evv[i], v2[i])])
         cov   == [i \in SubIds |-> IF keep THEN Covered(TsOf(cfg, i), tsi[i], tn) ELSE 0]
     IN /\ tp' = tp2 /\ tn' = tn2
        /\ y' = y2
        /\ ss' = IF keep THEN NextSS(ss, mj) ELSE ss
        /\ mj' = IF keep THEN gap > 0 ELSE mj
        /\ ns' = ns + 1 /\ na' = na2 /\ nr' = nr + B(~keep)
        /\ evv' = v2 /\ evm' = m2
        /\ res' = IF AnyTrue(m2) /\ Okay(r2) THEN "event_occurred" ELSE r2
        /\ saves' = [i \in SubIds |->
              saves[i]
              \o [j \in 1..cov[i] |->
                    LET t == TsOf(cfg, i)[tsi[i] + j - 1]
                    IN Entry(Subs[i], R(t), PieceAt(p, R(t)))]
              \o IF keep /\ Subs[i].steps # 0 /\ na2 % Max(Subs[i].steps, 1) = 0
                 THEN <<Entry(Subs[i], R(tp2), R(p.y1))>> ELSE <<>>]
        /\ tsi' = [i \in SubIds |-> tsi[i] + cov[i]]
        /\ dense' = IF keep THEN Append(dense, p) ELSE dense
        /\ lastPiece' = p
        /\ script' = Append(script, [keep |-> keep, dt |-> dt, gap |-> gap, cfail |-> cfail])
        /\ acc' = IF keep THEN Append(acc, p @@ [tend |-> tp2]) ELSE acc
        /\ att' = Append(att, [t0 |-> tp, t1 |-> tn, y0 |-> y, ss |-> ss, mj |-> mj,
                               y1 |-> p.y1, keep |-> keep])
        /\ UNCHANGED <<pc, cfg, fin>>

Step ==
  \E keep \in Keeps, dt \in Dts, gap \in Gaps, cfail \in CFails :
     /\ gap > 0 => keep       \* a rejected step cannot cross a jump
     \* the (couple-of-ulps-wide) gap left by a jump is inside the interval and contains
     \* no requested time
     /\ gap > 1 => /\ tn + gap - 1 < cfg.t1
                   /\ \A j \in 1..Len(cfg.ts) : ~(tn < cfg.ts[j] /\ cfg.ts[j] <= tn + gap - 1)
     /\ Attempt(keep, dt, gap, cfail)

\* The solve has stopped: decide the final time and state, truncate, save the end.
Finish ==
  /\ pc = "run" /\ ~(Going /\ Budget)
  /\ LET happened == AnyTrue(evm)
         e  == cfg.evs[CHOOSE i \in 1..Len(evm) : evm[i]]
         p  == lastPiece
         \* exact root of the triggered condition along the last step
         root == IF e.on = "t" THEN <<e.thr2, 2>>
                 ELSE RNorm(2 * (p.t0 * p.k - p.y0) + e.thr2, 2 * p.k)
         local == RootFind /\ happened
         tf == IF ~local THEN R(tp) ELSE IF e.kind = "bool" THEN R(p.t1) ELSE root
         yf == IF ~local \/ ns = 0 THEN R(y) ELSE PieceAt(p, tf)
         kept == [i \in SubIds |->
                    SelectSeq(saves[i], LAMBDA s : ~(local /\ RLt(tf, s.t)))]
         trivial == [i \in SubIds |->
                    IF cfg.t1 = 0
                    THEN [j \in 1..Len(TsOf(cfg, i)) |-> Entry(Subs[i], R(0), yf)]
                    ELSE <<>>]
         bysteps == [i \in SubIds |-> Subs[i].steps # 0 /\ na > 0
                                      /\ na % Max(Subs[i].steps, 1) = 0]
         removed == local /\ RLt(tf, R(tp))
         wantend == [i \in SubIds |-> IF removed THEN Subs[i].t1 \/ bysteps[i]
                                      ELSE Subs[i].t1 /\ ~bysteps[i]]
     IN /\ saves' = [i \in SubIds |-> kept[i] \o trivial[i]
                        \o IF wantend[i] THEN <<Entry(Subs[i], tf, yf)>> ELSE <<>>]
        /\ res' = IF Going THEN "max_steps_reached" ELSE res
        /\ fin' = [t |-> tf, y |-> yf, res |-> res']
        /\ pc' = "done"
  /\ UNCHANGED <<cfg, tp, tn, y, ss, mj, ns, na, nr, tsi, dense, evv, evm, lastPiece,
                 script, acc, att>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* Dense output at time t: the piece containing t (pieces meet at their `tend';
\* `left' says which of two meeting pieces answers); out of range is "nan".
DenseAt(t, left) ==
  LET covers == IF left THEN {i \in 1..Len(acc) : t <= acc[i].tend}
                ELSE {i \in 1..Len(acc) : acc[i].t0 <= t}
      i == IF left THEN CHOOSE i \in covers : \A j \in covers : i <= j
           ELSE CHOOSE i \in covers : \A j \in covers : i >= j
  IN IF Len(acc) = 0 THEN (IF t = 0 THEN [nan |-> FALSE, v |-> cfg.y0, k |-> 0]
                         ELSE [nan |-> TRUE, v |-> 0, k |-> 0])
     ELSE IF t < 0 \/ t > tp \/ covers = {} THEN [nan |-> TRUE, v |-> 0, k |-> 0]
     ELSE [nan |-> FALSE, v |-> acc[i].y0 + (t - acc[i].t0) * acc[i].k, k |-> acc[i].k]

\* Every complete behaviour is printed, to be replayed into the implementation.
Emit == pc = "done" =>
  PrintT("BEHAVIOUR " \o ToJson([tag |-> Tag, maxsteps |-> MaxSteps,
     cfg |-> cfg, script |-> script, saves |-> saves,
     dl |-> [i \in 1..Len(DenseTimes) |-> DenseAt(DenseTimes[i], TRUE)],
     dr |-> [i \in 1..Len(DenseTimes) |-> DenseAt(DenseTimes[i], FALSE)],
     tp |-> tp, y |-> y, ss |-> ss, mj |-> mj, fin |-> fin,
     ns |-> ns, na |-> na, nr |-> nr, res |-> res, evm |-> evm, att |-> att]))

------------------------------------------------------------------------------
(* The properties, stated without reference to how the loop is programmed. *)

\* L01: accepted steps tile the interval.
Tiling ==
  /\ \A i \in 1..Len(acc) : acc[i].t0 < acc[i].t1 /\ acc[i].t1 <= cfg.t1
  /\ Len(acc) > 0 => acc[1].t0 = 0
  /\ \A i \in 1..(Len(acc) - 1) : acc[i + 1].t0 = acc[i].tend /\ acc[i].tend >= acc[i].t1
  /\ tp <= cfg.t1
  /\ Len(acc) > 0 => tp = acc[Len(acc)].tend
  /\ pc = "done" /\ res = "successful" => tp = cfg.t1
  \* the final piece reaches the end itself, unless a jump was crossed on the way out
  /\ pc = "done" /\ res = "successful" /\ cfg.t1 > 0 /\ acc[Len(acc)].tend = acc[Len(acc)].t1
       => acc[Len(acc)].t1 = cfg.t1

\* L02: a rejected attempt leaves no trace: the next attempt starts from the same
\* time, state, memory and jump flag; an accepted one hands over exactly its result.
Rollback ==
  \A i \in 1..(Len(att) - 1) :
    IF att[i].keep
    THEN /\ att[i + 1].y0 = att[i].y1
         /\ att[i + 1].ss = NextSS(att[i].ss, att[i].mj)
         /\ att[i + 1].mj = (script[i].gap > 0)
    ELSE /\ att[i + 1].t0 = att[i].t0
         /\ att[i + 1].y0 = att[i].y0
         /\ att[i + 1].ss = att[i].ss
         /\ att[i + 1].mj = att[i].mj
         /\ att[i + 1].t1 > att[i + 1].t0

\* The solution as a function of time, from the accepted pieces.
At(t) ==
  LET i == CHOOSE i \in 1..Len(acc) :
             RLe(t, R(acc[i].t1)) /\ \A j \in 1..(i - 1) : RLt(R(acc[j].t1), t)
  IN PieceAt(acc[i], t)

\* L03: what each saving request must have received by the end.
Wanted(i) ==
  LET s == Subs[i]
      tf == fin.t
      byTs == IF cfg.t1 = 0
              THEN [j \in 1..Len(TsOf(cfg, i)) |-> Entry(s, R(0), R(cfg.y0))]
              ELSE [j \in 1..Len(SelectSeq(TsOf(cfg, i),
                              LAMBDA t : RLe(R(t), tf) /\ Len(acc) > 0 /\ t <= acc[Len(acc)].t1)) |->
                      Entry(s, R(TsOf(cfg, i)[j]), At(R(TsOf(cfg, i)[j])))]
      stepIdx == {n \in 1..Len(acc) : s.steps # 0 /\ n % Max(s.steps, 1) = 0}
      stepEntries == {Entry(s, R(acc[n].tend), R(acc[n].y1)) :
                        n \in {m \in stepIdx : RLe(R(acc[m].tend), tf)}}
      endByStep == Len(acc) \in stepIdx
      wantEnd == s.t1 \/ endByStep
  IN [ts |-> byTs, steps |-> stepEntries, wantEnd |-> wantEnd]

Times(q) == [j \in 1..Len(q) |-> q[j].t]
Count(q, x) == Cardinality({j \in 1..Len(q) : q[j] = x})

SaveCorrect ==
  pc = "done" => \A i \in SubIds :
    LET q == saves[i]
        w == Wanted(i)
        s == Subs[i]
        endE == Entry(s, fin.t, fin.y)
        expectLen == B(s.t0) + Len(w.ts) + Cardinality(w.steps)
                     + B(w.wantEnd /\ endE \notin w.steps)
    IN /\ \A j \in 1..(Len(q) - 1) : RLe(q[j].t, q[j + 1].t)
       /\ s.t0 => q[1] = Entry(s, R(0), R(cfg.y0))
       /\ Len(q) = expectLen
       /\ \A j \in 1..Len(w.ts) : Count(q, w.ts[j]) >= 1
       /\ \A x \in w.steps : Count(q, x) >= 1
       /\ w.wantEnd => q[Len(q)] = endE
       /\ \A j \in 1..Len(q) : RLe(q[j].t, fin.t)

\* L04: dense output is exactly the accepted pieces.
DenseCorrect ==
  /\ Len(dense) = Len(acc)
  /\ \A i \in 1..Len(acc) : dense[i].t0 = acc[i].t0 /\ dense[i].y1 = acc[i].y1
  /\ \A i \in 1..(Len(acc) - 1) : dense[i].y1 = dense[i + 1].y0

\* L05: outcome and statistics.
Failed(i) == \/ script[i].cfail
             \/ att[i].keep /\ cfg.badw # 0 /\ att[i].t1 - att[i].t0 = cfg.badw
Outcome ==
  /\ ns = na + nr /\ na = Len(acc) /\ ns = Len(att)
  /\ MaxSteps # 0 => ns <= MaxSteps
  /\ pc = "done" =>
       /\ (res = "max_steps_reached") <=>
            (MaxSteps # 0 /\ ns = MaxSteps /\ tp < cfg.t1
             /\ (\A i \in 1..Len(att) : ~Failed(i))
             /\ ~AnyTrue(evm))
       /\ (\E i \in 1..Len(att) : Failed(i)) => ~Okay(res)
       /\ res = "successful" => tp = cfg.t1

\* E01/E02: events.
EventCorrect ==
  /\ Cardinality({i \in 1..Len(evm) : evm[i]}) <= 1
  /\ pc = "done" =>
       /\ res = "event_occurred" => AnyTrue(evm)
       /\ AnyTrue(evm) => ~(res \in {"successful", "max_steps_reached"})
       \* nothing triggered at any earlier accepted step
       /\ AnyTrue(evm) /\ RootFind /\ ns > 0 =>
            /\ RLe(R(lastPiece.t0), fin.t) /\ RLe(fin.t, R(lastPiece.t1))
            /\ \A i \in 1..Len(evm) : evm[i] /\ cfg.evs[i].kind = "float" /\ cfg.evs[i].on = "y"
                 => 2 * fin.y[1] = cfg.evs[i].thr2 * fin.y[2]

\* Every solve ends.
Terminates == <>(pc = "done")
==============================================================================
