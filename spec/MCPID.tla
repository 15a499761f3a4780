------------------------------- MODULE MCPID -------------------------------
EXTENDS PID
MCZero == 1000
MCInf == 1001
MCNone == -100000
Mk(p, i, d, k, safety, fmin, fmax, dtmin, dtmax, force, dt0) ==
  [p |-> p, i |-> i, d |-> d, k |-> k, safety |-> safety, fmin |-> fmin, fmax |-> fmax,
   dtmin |-> dtmin, dtmax |-> dtmax, force |-> force, dt0 |-> dt0]
Plain == {Mk(0, 10, 0, 1, -41, -250, 290, MCNone, MCNone, TRUE, 0), Mk(0, 10, 0, 4, -19, -277, 399, MCNone, MCNone, TRUE, -100)}
Pid == {Mk(4, 3, 0, 2, -41, -250, 290, MCNone, MCNone, TRUE, 0), Mk(2, 4, 1, 3, -19, -277, 399, MCNone, MCNone, TRUE, 33),
        Mk(1, 3, 2, 6, -41, -130, 95, MCNone, MCNone, TRUE, 33)}
Limits == {Mk(0, 10, 0, 2, -41, -250, 290, -301, 307, TRUE, 0), Mk(0, 10, 0, 2, -41, -250, 290, -301, 307, FALSE, 0),
           Mk(2, 4, 1, 3, -19, -277, 399, -107, MCNone, TRUE, -500), Mk(4, 3, 0, 2, -41, -250, 290, -107, MCNone, FALSE, 0),
           Mk(0, 10, 0, 1, -41, -250, 290, MCNone, 61, TRUE, 500), Mk(4, 3, 0, 1, -41, -250, 290, -7, 61, TRUE, 0)}
All == Plain \cup Pid \cup Limits
FewErrs == {-2, 1, 3, MCZero, MCInf}
ManyErrs == {-8, -3, -1, 0, 1, 2, 5, MCZero, MCInf}
============================================================================
