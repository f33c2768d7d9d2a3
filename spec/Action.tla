------------------------------- MODULE Action -------------------------------
(***************************************************************************)
(* Life of the samples of one data that is coupled from a writer to a       *)
(* reader while both sides perform data actions on it.                      *)
(*                                                                           *)
(* A sample is [t, e, f]: its time, the number of times the scaling action   *)
(* was applied to it and whether the actions of its side have processed it.  *)
(* The reader additionally sums the data up into another one (S).            *)
(* Windows are Len ticks long, the writer chooses in every iteration in      *)
(* which ticks it stops.                                                     *)
(*                                                                           *)
(*  Sub   all samples of the window are sent (substeps) or the last one      *)
(*  Impl  windows are iterated                                               *)
(*  When  "now": data arrives for the window that ends (parallel, first of   *)
(*        serial), "end": for the window that starts (second of serial)      *)
(*  Map   the reader maps the data to the mesh with the actions              *)
(*  Fresh actions leave samples alone that they have processed already       *)
(*        (FALSE describes the library before its repair)                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS MaxWin, MaxIt, L, Subs, Impls, Whens, Maps, Fresh, Orders

VARIABLES cf, st, w, from, to, sum, it, ws, msg
vars == <<cf, st, w, from, to, sum, it, ws, msg>>

S(t) == [t |-> t, e |-> 0, f |-> FALSE]
Until(q, t) == SelectSeq(q, LAMBDA x : x.t <= t)
From(q, t) == SelectSeq(q, LAMBDA x : x.t >= t)
Has(q, t) == \E k \in 1..Len(q) : q[k].t = t
At(q, t) == q[CHOOSE k \in 1..Len(q) : q[k].t = t]
Raw(q) == [k \in 1..Len(q) |-> [q[k] EXCEPT !.f = FALSE]]      \* what goes over the network
LastS(q) == <<q[Len(q)]>>

Scale(q) == [k \in 1..Len(q) |-> IF Fresh /\ q[k].f THEN q[k] ELSE [q[k] EXCEPT !.e = @ + 1]]
Done(q) == [k \in 1..Len(q) |-> [q[k] EXCEPT !.f = TRUE]]
(* the sum of one source: rebuilt for the samples of the source *)
SumUp(t, q) == [k \in 1..Len(q) |-> IF Fresh /\ q[k].f /\ Has(t, q[k].t) THEN At(t, q[k].t) ELSE [q[k] EXCEPT !.f = FALSE]]

(* actions of the reader in the order of the configuration *)
Acted(q, s) == IF cf.order = "sum-scale" THEN [q |-> Done(Scale(q)), s |-> Done(SumUp(s, q))]
               ELSE LET z == Scale(q) IN [q |-> Done(z), s |-> Done(SumUp(s, z))]
Target == IF cf.map THEN to ELSE from
Put(q, x) == Until(q, x.t - 1) \o <<x>>
Insert(q, m) == IF Len(m) = 0 THEN q ELSE IF cf.sub THEN m ELSE Put(q, m[Len(m)])
MapTo(q, src) == LET new == SelectSeq(src, LAMBDA x : ~Has(q, x.t) /\ (Len(q) = 0 \/ x.t >= q[1].t))
                 IN q \o [k \in 1..Len(new) |-> [new[k] EXCEPT !.f = FALSE]]

Init == /\ \E s \in Subs, i \in Impls, n \in Whens, m \in Maps, o \in Orders :
             cf = [sub |-> s, impl |-> i, when |-> n, map |-> m, order |-> o]
        /\ st = "init" /\ w = <<S(0)>> /\ from = <<>> /\ to = <<>> /\ sum = <<>> /\ it = 1 /\ ws = 0 /\ msg = <<>>

(* the initial data is sent; the second of a serial coupling gets the first
   window before it acts                                                    *)
Start ==
  /\ st = "init" /\ (cf.when = "end" \/ cf.map)
  /\ w' = Done(Scale(w))
  /\ from' = Raw(w')
  /\ IF cf.when = "end" THEN UNCHANGED <<to, sum>>
     ELSE LET a == Acted(MapTo(<<>>, from'), <<>>) IN to' = a.q /\ sum' = a.s
  /\ st' = "compute" /\ UNCHANGED <<cf, it, ws, msg>>

(* without a mapping the actions change the received samples themselves *)
StartDirect ==
  /\ st = "init" /\ cf.when = "now" /\ ~cf.map
  /\ w' = Done(Scale(w))
  /\ LET a == Acted(Raw(w'), <<>>) IN from' = a.q /\ sum' = a.s
  /\ st' = "compute" /\ UNCHANGED <<cf, to, it, ws, msg>>

Compute ==
  /\ st = "compute" /\ ws < MaxWin * L
  /\ \E G \in SUBSET ((ws + 1)..(ws + L - 1)) :
       w' = Until(w, ws) \o [k \in 1..Len(SetToSortSeq(G \cup {ws + L}, <)) |-> S(SetToSortSeq(G \cup {ws + L}, <)[k])]
  /\ st' = "write" /\ UNCHANGED <<cf, from, to, sum, it, ws, msg>>

Write ==
  /\ st = "write"
  /\ w' = Done(Scale(w))
  /\ msg' = IF cf.sub THEN Raw(w') ELSE Raw(LastS(w'))
  /\ st' = "decide" /\ UNCHANGED <<cf, from, to, sum, it, ws>>

(* the reader gets the message, at the end of the step *)
Receive ==
  /\ st = "decide"
  /\ \E conv \in (IF ~cf.impl \/ it = MaxIt THEN {TRUE} ELSE {TRUE, FALSE}) :
     LET we == ws + L
         now == cf.when = "now"
         got == Insert(from, msg)
         (* now: the reader ends the window; end: it starts (or repeats) it *)
         done == now /\ conv
         start == IF done THEN we ELSE ws
         f1 == IF done THEN LastS(got) ELSE got
         t1 == IF done THEN <<>> ELSE Until(to, ws)
         q  == IF cf.map THEN MapTo(t1, f1) ELSE f1
         a  == Acted(q, From(sum, start))
     IN /\ IF cf.map THEN from' = f1 /\ to' = a.q ELSE from' = a.q /\ UNCHANGED to
        /\ sum' = a.s
        /\ st' = IF conv THEN "next" ELSE "again"
        /\ UNCHANGED <<cf, w, it, ws, msg>>
Next1 ==
  /\ st \in {"next", "again"}
  /\ IF st = "again"
     THEN /\ it' = it + 1 /\ w' = Until(w, ws) /\ UNCHANGED <<ws, from, to, sum>>
     ELSE /\ it' = 1 /\ ws' = ws + L /\ w' = LastS(w)
          \* a reader that is ahead keeps the start of its next window
          /\ from' = IF from = <<>> THEN from ELSE LastS(from)
          /\ to' = IF to = <<>> THEN to ELSE LastS(to)
          /\ sum' = IF sum = <<>> THEN sum ELSE LastS(sum)
  /\ st' = "compute" /\ UNCHANGED <<cf, msg>>
Over == st = "compute" /\ ws = MaxWin * L /\ UNCHANGED vars

Next == Start \/ StartDirect \/ Compute \/ Write \/ Receive \/ Next1 \/ Over
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* what is sent has been scaled once, what is read once on either side *)
SentOnce == st = "decide" => \A k \in 1..Len(msg) : msg[k].e = 1
Visible == Target
ReadOnce == st \in {"next", "again"} => \A k \in 1..Len(Visible) : Visible[k].e = 2
SumExp == IF cf.order = "sum-scale" THEN 1 ELSE 2
SumOnce == st \in {"next", "again"} => /\ \A k \in 1..Len(sum) : sum[k].e = SumExp
                                       /\ Len(sum) = Len(Visible) /\ \A k \in 1..Len(sum) : sum[k].t = Visible[k].t
Ordered(q) == \A k \in 1..(Len(q) - 1) : q[k].t < q[k + 1].t
OrderInv == Ordered(w) /\ Ordered(from) /\ Ordered(to) /\ Ordered(sum)
=============================================================================
