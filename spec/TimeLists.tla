------------------------------ MODULE TimeLists ------------------------------
(* Lists of times given to a solve or to a path: which are refused, and what those that  *)
(* are not are taken to mean. Times are small integers; 9 stands for "not a number".         *)
(* A list is read from the front, as the entry points do; reading stops at the first time      *)
(* that cannot come next.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Times, MaxLen

VARIABLES kind, ends, list, read, state
vars == <<kind, ends, list, read, state>>

NaN == 9
Dir == IF ends[1] < ends[2] THEN 1 ELSE -1
Between(t) == t # NaN /\ Dir * ends[1] <= Dir * t /\ Dir * t <= Dir * ends[2]
\* b may come right after a
Follows(a, b) ==
  CASE kind = "saveat" -> Dir * a <= Dir * b
    [] kind = "stepto" -> Dir * a < Dir * b
    [] kind = "data" -> a # NaN /\ b # NaN /\ a < b
    [] OTHER -> TRUE
First(t) == CASE kind = "saveat" -> Between(t)
              [] kind = "stepto" -> t = ends[1]
              [] kind = "tree" -> t \in ends[1]..ends[2]
              [] OTHER -> TRUE
Every(t) == CASE kind = "saveat" -> Between(t) [] kind = "tree" -> t \in ends[1]..ends[2] [] OTHER -> TRUE
Last(t) == kind = "stepto" => t = ends[2]
Short == Len(list) < (IF kind \in {"stepto", "data"} THEN 2 ELSE 1)
\* the extent itself
Extent == CASE kind = "tree" -> ends[1] < ends[2]
            [] kind = "dt0" -> (ends[2] - ends[1]) * list[1] >= 0
            [] OTHER -> TRUE

Lists == UNION {[1..n -> Times] : n \in 1..MaxLen}
Init == /\ kind \in Kinds
        /\ ends \in IF kind = "data" THEN {<<0, 3>>} ELSE IF kind \in {"saveat", "stepto"} THEN {<<0, 3>>, <<3, 0>>, <<1, 2>>, <<2, 1>>, <<1, 1>>} ELSE {<<0, 3>>, <<3, 0>>, <<1, 2>>, <<2, 2>>}
        /\ list \in {l \in Lists : /\ (kind # "data" => \A i \in DOMAIN l : l[i] # NaN)
                                   /\ (kind = "dt0" => Len(l) = 1)}
        /\ (kind = "stepto" => ends[1] # ends[2])
        /\ read = 0
        /\ state = "reading"
Read == /\ state = "reading"
        /\ IF ~Extent \/ Short THEN state' = "refused" /\ UNCHANGED read
           ELSE IF read = Len(list) THEN state' = (IF Last(list[read]) THEN "taken" ELSE "refused") /\ UNCHANGED read
           ELSE IF ~Every(list[read + 1]) \/ (IF read = 0 THEN ~First(list[1]) ELSE ~Follows(list[read], list[read + 1])) THEN state' = "refused" /\ UNCHANGED read
           ELSE read' = read + 1 /\ UNCHANGED state
        /\ UNCHANGED <<kind, ends, list>>
Spec == Init /\ [][Read]_vars /\ WF_vars(Read)

\* what has been read so far is in order
Ordered == kind \in {"saveat", "stepto"} => \A i, j \in 1..read : i < j => Dir * list[i] <= Dir * list[j]
Strict == kind \in {"stepto", "data"} => \A i, j \in 1..read : i # j => list[i] # list[j]
Inside == (kind \in {"saveat", "tree"} /\ state = "taken") => \A i \in DOMAIN list : Between(list[i])
Decided == <>(state # "reading")
Emit == (state # "reading") => PrintT("BEHAVIOUR " \o ToJson([kind |-> kind, ends |-> ends, list |-> list, taken |-> state = "taken"]))
=============================================================================
