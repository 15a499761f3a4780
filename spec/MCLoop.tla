------------------------------- MODULE MCLoop -------------------------------
EXTENDS Integrate
MCSubs == << [t0 |-> TRUE,  ts |-> TRUE,  steps |-> 0, t1 |-> TRUE,  fn |-> "ty"],
             [t0 |-> FALSE, ts |-> FALSE, steps |-> 1, t1 |-> FALSE, fn |-> "y"],
             [t0 |-> FALSE, ts |-> FALSE, steps |-> 2, t1 |-> TRUE,  fn |-> "ty"],
             [t0 |-> TRUE,  ts |-> TRUE,  steps |-> 3, t1 |-> TRUE,  fn |-> "y"],
             [t0 |-> FALSE, ts |-> FALSE, steps |-> 0, t1 |-> TRUE,  fn |-> "y"],
             [t0 |-> FALSE, ts |-> TRUE,  steps |-> 0, t1 |-> FALSE, fn |-> "y"],
             [t0 |-> FALSE, ts |-> TRUE,  steps |-> 1, t1 |-> TRUE,  fn |-> "ty"] >>
MCSubsNoSteps == SelectSeq(MCSubs, LAMBDA s : s.steps = 0)
Y1 == {1}
Y2 == {1, 4}
Y3 == {-2, 1, 5}
Y4 == {-2, 1, 5, 80}
MCT1s == {256}
MCTs == [t \in {0, 256} |-> IF t = 0 THEN {<<0, 0, 0, 0>>}
          ELSE {<<0, 64, 64, 256>>, <<1, 65, 160, 255>>, <<32, 128, 224, 225>>}]
MCT0 == {0}
MCT1r == {128, 256}
NoSubs == <<>>
NoTs == [t \in {128, 256} |-> {<<>>}]
MCNoDense == <<>>
MCDense == <<0, 1, 63, 64, 65, 100, 128, 160, 161, 200, 224, 255, 256, 257>>
NoEv == {<<>>}
\* thresholds are doubled; `half' thresholds can never be hit exactly at a step end
Ev(kind, on, thr2, dir) == [kind |-> kind, on |-> on, thr2 |-> thr2, dir |-> dir]
\* group 1: boolean on state, crossing of state (either way), upcrossing of time
EvA(thrs, thrs2, tt) == {<<Ev("bool", "y", a, "any"), Ev("float", "y", b, "any"), Ev("float", "t", c, "up")>> :
           a \in thrs, b \in thrs2, c \in tt}
\* group 2: upcrossing and downcrossing of state, either crossing of time
EvB(thrs, thrs2, tt) == {<<Ev("float", "y", a, "up"), Ev("float", "y", b, "down"), Ev("float", "t", c, "any")>> :
           a \in thrs, b \in thrs2, c \in tt}
EvA1 == EvA({130, 2000}, {2, 130, -700}, {128, 1001})
EvB1 == EvB({130, 2, 2000}, {2, -126, -5000}, {0, 320, 1001})
\* with localisation: never exactly at a step end
EvA2 == EvA({131, 2001}, {3, 131, -701}, {129, 1001})
EvB2 == EvB({131, 3, 2001}, {3, -127, -5001}, {257, 321, 1001})
=============================================================================
