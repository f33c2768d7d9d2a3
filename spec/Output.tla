------------------------------ MODULE Output ---------------------------------
(***************************************************************************)
(* What the result files of a run of Coupling have to contain, derived    *)
(* from the calls of every participant: when rows and exports are due and    *)
(* the numbers of the iteration and convergence logs.                        *)
(***************************************************************************)
EXTENDS Coupling, FiniteSets

\* positions of the returns of initialize() and of every advance()
Rets(p)   == IdxSeq(LAMBDA k : tr[p][k].op = "ret", Len(tr[p]))
Obs_(p, k) == tr[p][Rets(p)[k]]
\* advance number k returns at Rets(p)[k + 1]
Calls(p)  == Len(Rets(p)) - 1
AtEnd_(p, k) == LET o == Obs_(p, k + 1).obs IN o.cp \/ o.rc
Completed(p) == IdxSeq(LAMBDA k : Obs_(p, k + 1).obs.cp, Calls(p))

\* exports: index, position of the return that shows their content
Due(p, n) == IF n < 1 THEN <<>>
             ELSE <<[i |-> 0, k |-> 1]>>
                  \o LET c == Completed(p)
                         w == IdxSeq(LAMBDA j : j % n = 0, Len(c))
                     IN [j \in 1..Len(w) |-> [i |-> w[j], k |-> c[w[j]] + 1]]
EveryIt(p) == LET c == IdxSeq(LAMBDA k : AtEnd_(p, k), Calls(p))
              IN <<[i |-> 0, k |-> 1]>> \o [j \in 1..Len(c) |-> [i |-> c[j], k |-> c[j] + 1]]

\* logs of an implicit scheme; a window counter that changes ends the window,
\* an iteration counter of all windows that changes ends an iteration
Ended_(p) == IF MyImpl(p) = <<>> THEN <<>>
             ELSE IdxSeq(LAMBDA k : Obs_(p, k + 1).its[1].tot # Obs_(p, k).its[1].tot, Calls(p))
Iterations(p) ==
  LET e == Ended_(p) IN
  [j \in 1..Len(e) |-> LET a == Obs_(p, e[j]).its[1]
                           b == Obs_(p, e[j] + 1)
                       IN [tw |-> a.tw, it |-> a.it, tot |-> a.tot, conv |-> b.its[1].tw # a.tw,
                           res |-> b.res]]

Files(p) == [rets |-> Rets(p), wins |-> Due(p, 1), wins2 |-> Due(p, 2), wins3 |-> Due(p, 3),
             iters |-> EveryIt(p), its |-> Iterations(p)]

\* -- what these files promise --------------------------------------------------
Regular(p) == Rets(p) # <<>> /\ \A k \in 1..Len(tr[p]) : tr[p][k].op # "err"
UniqueInv == gen.step = "run" /\ (\A p \in Parts : Ended(p)) => \A p \in Parts : Regular(p) =>
   LET names == {Due(p, 1)[j].i : j \in 1..Len(Due(p, 1))} IN Cardinality(names) = Len(Due(p, 1))
RowsInv == gen.step = "run" /\ (\A p \in Parts : Ended(p)) => \A p \in Parts : Regular(p) =>
   LET r == Iterations(p) IN
   \A j \in 1..Len(r) : /\ r[j].tot = j
                        /\ r[j].it = (IF j = 1 \/ r[j - 1].conv THEN 1 ELSE r[j - 1].it + 1)
                        /\ r[j].tw = (IF j = 1 THEN 1 ELSE IF r[j - 1].conv THEN r[j - 1].tw + 1 ELSE r[j - 1].tw)
=============================================================================
