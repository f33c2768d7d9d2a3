------------------------------- MODULE Accel -------------------------------
(***************************************************************************)
(* Bookkeeping of the acceleration of an implicit coupling scheme: which     *)
(* step is taken in an iteration and which residual differences a            *)
(* quasi-Newton step may use.                                                *)
(*                                                                           *)
(* A window is a sequence of iterations; the last one converges (or is the   *)
(* last one allowed) and passes its data on unmodified, every other one is   *)
(* followed by an acceleration step.  Column <<w, k>> is the difference      *)
(* between iterations k and k-1 of window w.  cols is a sequence of windows  *)
(* (newest first) of sequences of columns (newest first).                    *)
(*                                                                           *)
(* Aitken: the factor of the first step of a window is the initial one,      *)
(* bounded by the last factor, later ones use the two latest residuals.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Gen,         \* TRUE: print behaviours (simulation)
          Kinds, Accs, \* {"SI","PI"}, {"relax","aitken","ils","imvj"}
          MaxWin, MaxIt, Reused, MaxUsed, Force,
          Rows         \* number of unknowns (bounds the number of columns)

VARIABLES cfg, w, it, fi, fw, cols, backup, log, its, ph
vars == <<cfg, w, it, fi, fw, cols, backup, log, its, ph>>

QN == cfg.acc \in {"ils", "imvj"}
Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S
Total(c) == Len(FlattenSeq(c))
Empty(c) == Total(c) = 0
(* the window counters that do not count any column are dropped *)
DropEmptyFront(c) == IF c # <<>> /\ Head(c) = <<>> THEN Tail(c) ELSE c
DropLast(c) == LET z == Front(c[Len(c)]) IN IF z = <<>> THEN Front(c) ELSE Front(c) \o <<z>>

Init == /\ cfg \in [kind : {"SI"}, acc : {"ils"}, reused : {0}, maxused : {1}, force : {FALSE}, win : {0}]
        /\ w = 1 /\ it = 1 /\ fi = TRUE /\ fw = TRUE /\ cols = <<<<>>>> /\ backup = <<>> /\ log = <<>> /\ its = <<>> /\ ph = "cfg"

Choose == /\ ph = "cfg"
          /\ \E k \in Pick(Kinds), a \in Pick(Accs), r \in Pick(Reused), m \in Pick(MaxUsed), f \in Pick(Force), n \in Pick(2..MaxWin) :
               cfg' = [kind |-> k, acc |-> a, reused |-> r, maxused |-> m, force |-> f, win |-> n]
          /\ ph' = "run"
          /\ UNCHANGED <<w, it, fi, fw, cols, backup, log, its>>

(* the newest difference becomes a column *)
Push(c) == IF fi THEN c
           ELSE LET n == Total(c)
                    d == <<(<<<<w, it>>>> \o Head(c))>> \o Tail(c)
                IN IF n < cfg.maxused THEN d ELSE DropLast(d)

Relaxed == fi /\ (fw \/ cfg.force)
Iterate ==
  /\ ph = "run" /\ it < MaxIt
  /\ LET c1 == IF QN THEN Push(cols) ELSE cols
         c2 == IF ~fw /\ Empty(c1) /\ cfg.reused = 0 /\ ~cfg.force THEN backup ELSE c1
         keep == fi /\ cfg.reused = 0 /\ ~cfg.force
     IN IF ~QN THEN /\ log' = Append(log, [w |-> w, it |-> it, how |-> IF it = 1 THEN "first" ELSE "next", cols |-> <<>>])
                    /\ UNCHANGED <<cols, backup>>
        ELSE IF Relaxed
        THEN /\ log' = Append(log, [w |-> w, it |-> it, how |-> "relax", cols |-> <<>>])
             /\ UNCHANGED <<cols, backup>>
        ELSE /\ log' = Append(log, [w |-> w, it |-> it, how |-> "qn", cols |-> FlattenSeq(c2)])
             /\ backup' = IF keep /\ ~Empty(c2) THEN c2 ELSE backup
             /\ cols' = IF keep /\ ~fw THEN <<<<>>>> ELSE c2
  /\ it' = it + 1 /\ fi' = FALSE
  /\ UNCHANGED <<cfg, w, fw, its, ph>>

Converge ==
  /\ ph = "run"
  /\ LET c1 == DropEmptyFront(IF QN THEN Push(cols) ELSE cols)
         c2 == IF cfg.reused = 0 THEN (IF cfg.force THEN <<>> ELSE c1)
               ELSE IF Len(c1) > cfg.reused THEN Front(c1) ELSE c1
     IN /\ cols' = <<<<>>>> \o c2
        /\ log' = Append(log, [w |-> w, it |-> it, how |-> "converged", cols |-> FlattenSeq(c1)])
  /\ fw' = (fw /\ fi)
  /\ fi' = TRUE /\ it' = 1 /\ w' = w + 1 /\ its' = Append(its, it)
  /\ ph' = IF w = cfg.win THEN "end" ELSE "run"
  /\ UNCHANGED <<cfg, backup>>

Emit == /\ Gen /\ ph = "end"
        /\ PrintT("@@" \o ToJson([cfg |-> cfg, its |-> its, log |-> log]))
        /\ ph' = "over" /\ UNCHANGED <<cfg, w, it, fi, fw, cols, backup, log, its>>

Next == \/ Choose \/ Emit
        \/ ~Gen /\ (Iterate \/ Converge)
        \/ Gen /\ (IF ph = "run" /\ it < MaxIt /\ RandomElement(1..4) > 1 THEN Iterate ELSE Converge)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the property promises *)
L == log[Len(log)]
Cols == IF log = <<>> THEN <<>> ELSE L.cols
(* windows before x that took more than one iteration *)
Long(x) == {y \in 1..(x - 1) : y <= Len(its) /\ its[y] > 1}
Newest(S, n) == {y \in S : Cardinality({z \in S : z > y}) < n}
StartInv == (log # <<>> /\ QN /\ L.how # "converged") =>
              (L.how = "relax") = (L.it = 1 /\ (cfg.force \/ Long(L.w) = {}))
BoundInv == Len(Cols) <= cfg.maxused
OrderInv == \A i, j \in 1..Len(Cols) : i < j => (Cols[i][1] > Cols[j][1] \/ (Cols[i][1] = Cols[j][1] /\ Cols[i][2] > Cols[j][2]))
(* only differences of iterations that took place, never of a future one *)
PastInv == \A i \in 1..Len(Cols) : LET c == Cols[i] IN
              /\ c[2] >= 2 /\ c[1] <= L.w
              /\ c[1] = L.w => c[2] <= L.it
              /\ c[1] < L.w => c[2] <= its[c[1]]
(* the differences of this window first, then those of the configured number of windows *)
ReuseInv == (log # <<>> /\ QN /\ L.how = "qn") =>
              \A i \in 1..Len(Cols) : Cols[i][1] # L.w =>
                 IF cfg.reused = 0 THEN L.it = 1 /\ Cols[i][1] \in Newest(Long(L.w), 1)
                 ELSE Cols[i][1] \in Newest(Long(L.w), cfg.reused)
(* nothing allowed is left out unless the number of columns is limited *)
AllInv == (log # <<>> /\ QN /\ L.how = "qn" /\ Len(Cols) < cfg.maxused) =>
              /\ {Cols[i][2] : i \in {j \in 1..Len(Cols) : Cols[j][1] = L.w}} = 2..L.it
              /\ Cols # <<>>
              /\ (cfg.reused > 0 /\ \A y \in Newest(Long(L.w), cfg.reused) : its[y] - 1 + L.it - 1 < cfg.maxused) =>
                    \A y \in Newest(Long(L.w), cfg.reused) : \E i \in 1..Len(Cols) : Cols[i][1] = y
=============================================================================
