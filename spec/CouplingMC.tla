----------------------------- MODULE CouplingMC -----------------------------
(***************************************************************************)
(* Exhaustive checking of Coupling on small configurations: every            *)
(* interleaving, every choice of step sizes, every convergence history.      *)
(*                                                                           *)
(* Written values are pairs <<x, tag>>: x in X decides convergence, the tag  *)
(* tells in which window and iteration (and at which time) it was written,   *)
(* so that the invariants can state which writes a reader may see.           *)
(***************************************************************************)
EXTENDS Coupling

CONSTANTS Topo,     \* "bi", "chain", "tri", "multi"
          KindSets, \* set of kinds per scheme of the topology
          MaxWin, MaxIt, MinIt, Size, Cut, X, Init0, Sub0, Meth, DtAny, HasConv, NoDie,
          Reduce    \* TRUE: local steps of a participant are not interleaved with others

VARIABLES died

vars == <<cfg, ps, ch, tr, gen, died>>

Sch(kind, a, b, oth, f, mw, mt) ==
  [kind |-> kind, a |-> a, b |-> b, oth |-> oth, meth |-> f,
   size |-> IF f = "first" THEN 0 ELSE Size, maxT |-> mt, maxW |-> mw,
   minI |-> MinIt, maxI |-> IF kind \in {"SE", "PE"} THEN 0 ELSE MaxIt, conv |-> <<>>, acc |-> [on |-> 1, od |-> 1, ex |-> <<>>]]
Ex(n, s, f, t, i, sub) == [d |-> n, s |-> s, from |-> f, to |-> t, init |-> i, sub |-> sub, deg |-> 1]

AddConv(c, s, i) ==
  IF HasConv /\ c.sch[s].kind \in {"SI", "PI", "MI"}
  THEN [c EXCEPT !.sch[s].conv = <<[i |-> i, type |-> "abs", n |-> 1, d |-> 0, suffices |-> FALSE, strict |-> FALSE]>>]
  ELSE c

Configs ==
  LET ends == {<<MaxWin, 0>>} \cup (IF Cut = 0 THEN {} ELSE {<<0, MaxWin * Size - Cut>>})
  IN CASE Topo = "bi" ->
            {AddConv([parts |-> <<"A", "B">>, scale |-> 1,
              sch |-> <<Sch(k, "A", "B", <<>>, f, e[1], e[2])>>,
              ex |-> <<Ex("D1", 1, "A", "B", i1, sub), Ex("D2", 1, "B", "A", i2, sub)>>], 1, 2)
             : k \in KindSets, f \in Meth, e \in ends, i1 \in Init0, i2 \in Init0, sub \in Sub0}
       [] Topo = "chain" ->
            {AddConv(AddConv([parts |-> <<"A", "B", "C">>, scale |-> 1,
              sch |-> <<Sch(k[1], "A", "B", <<>>, "fixed", e[1], e[2]), Sch(k[2], "B", "C", <<>>, "fixed", e[1], e[2])>>,
              ex |-> <<Ex("D1", 1, "A", "B", FALSE, FALSE), Ex("D2", 1, "B", "A", i2, FALSE),
                       Ex("D3", 2, "B", "C", FALSE, FALSE), Ex("D4", 2, "C", "B", i2, FALSE)>>], 1, 2), 2, 4)
             : k \in {z \in KindSets \X KindSets : z[1] \in {"SE", "PE"} \/ z[2] \in {"SE", "PE"}}, e \in ends, i2 \in Init0}
       [] Topo = "tri" ->   \* A-B, B-C, A-C
            {AddConv(AddConv(AddConv([parts |-> <<"A", "B", "C">>, scale |-> 1,
              sch |-> <<Sch(k[1], "A", "B", <<>>, "fixed", e[1], e[2]), Sch(k[2], "B", "C", <<>>, "fixed", e[1], e[2]),
                        Sch(k[3], "A", "C", <<>>, "fixed", e[1], e[2])>>,
              ex |-> <<Ex("D1", 1, "A", "B", FALSE, FALSE), Ex("D2", 1, "B", "A", FALSE, FALSE),
                       Ex("D3", 2, "B", "C", FALSE, FALSE), Ex("D4", 2, "C", "B", FALSE, FALSE),
                       Ex("D5", 3, "A", "C", FALSE, FALSE), Ex("D6", 3, "C", "A", FALSE, FALSE)>>], 1, 2), 2, 4), 3, 6)
             : k \in {z \in KindSets \X KindSets \X KindSets :
                        Cardinality({j \in 1..3 : z[j] \in {"SI", "PI"}}) <= 1}, e \in ends}
       [] Topo = "multi" ->
            {AddConv([parts |-> <<"A", "B", "C">>, scale |-> 1,
              sch |-> <<Sch("MI", "", "B", <<"A", "C">>, "fixed", e[1], e[2])>>,
              ex |-> <<Ex("D1", 1, "A", "B", i1, sub), Ex("D2", 1, "B", "A", i2, sub),
                       Ex("D3", 1, "B", "C", i2, sub), Ex("D4", 1, "C", "B", i1, sub)>>], 1, 1)
             : e \in ends, i1 \in Init0, i2 \in Init0, sub \in Sub0}

MInit == /\ cfg \in Configs
         /\ ps = [p \in Range(cfg.parts) |-> PInit(p)]
         /\ ch = [x \in Range(cfg.parts) \X Range(cfg.parts) |-> <<>>]
         /\ tr = <<>> /\ gen = [step |-> "run"] /\ died = ""

Measured(i) == \E s \in 1..NS : \E k \in 1..Len(cfg.sch[s].conv) : cfg.sch[s].conv[k].i = i

(* what a write at relative time dt of the running step is tagged with *)
MyTag(p, dt) ==
  LET s == Lead(p) IN
  1000 * St(p, s).tw + 100 * (IF Impl(s) THEN St(p, s).it ELSE 1) + PTime(p) + dt
TwOf(v) == v[2] \div 1000
ItOf(v) == (v[2] % 1000) \div 100
TOf(v)  == v[2] % 100

ChooseInit(p) ==
  /\ ps[p].pc = "new" /\ Len(ps[p].w) < Len(WList(p))
  /\ LET i == WList(p)[Len(ps[p].w) + 1] IN
     \E x \in (IF Measured(i) THEN X ELSE {0}) : ps' = [ps EXCEPT ![p].w = Append(@, IF InitWritable(p, i) THEN <<x, 0>> ELSE Zero)]
  /\ UNCHANGED <<cfg, ch, tr, gen>>

ChooseStep(p) ==
  /\ ps[p].pc = "idle" /\ POngoing(p) /\ ps[p].dt = 0
  /\ LET m == PMaxStep(p)
         lead == Lead(p)
         fixedDt == FirstMeth(lead) /\ ~IsSecond(lead, p) /\ Impl(lead) /\ St(p, lead).it > 1
     IN \E dt \in (IF fixedDt THEN {ps[p].wn} ELSE (IF DtAny THEN 1..MinI(m, Size) ELSE {MinI(m, Size)})) :
          ps' = [ps EXCEPT ![p].dt = dt, ![p].wn = dt]
  /\ UNCHANGED <<cfg, ch, tr, gen>>

ChooseWrite(p) ==
  /\ ps[p].pc = "idle" /\ ps[p].dt > 0 /\ Len(ps[p].w) < Len(WList(p))
  /\ \E x \in (IF Measured(WList(p)[Len(ps[p].w) + 1]) THEN X ELSE {0}) : ps' = [ps EXCEPT ![p].w = Append(@, <<x, MyTag(p, ps[p].dt)>>)]
  /\ UNCHANGED <<cfg, ch, tr, gen>>

Look(p) == /\ ps[p].pc = "look"
           /\ ps' = [ps EXCEPT ![p].pc = "idle"]
           /\ UNCHANGED <<cfg, ch, tr, gen>>

Die(p) == /\ ~NoDie /\ died = "" /\ (ps[p].pc = "new" \/ (ps[p].pc = "idle" /\ POngoing(p)))
          /\ died' = p
          /\ ps' = [ps EXCEPT ![p].pc = "err"]
          /\ UNCHANGED <<cfg, ch, tr, gen>>

Act(p) == ChooseInit(p) \/ StartInit(p) \/ ChooseStep(p) \/ ChooseWrite(p) \/ StartAdvance(p)
          \/ Step(p) \/ Return(p) \/ Failed(p) \/ Look(p) \/ Finish(p)
Local(p) == ps[p].pc \in {"new", "idle", "look", "fail"}
            \/ (ps[p].pc = "busy" /\ (ps[p].todo = <<>> \/ ~(Head(ps[p].todo).o \in {"snd", "rcv", "ssz", "rsz", "scv", "rcv?", "shs", "rhs"})))
Movers == IF Reduce /\ \E p \in Parts : Local(p)
          THEN {cfg.parts[CHOOSE k \in 1..Len(cfg.parts) : Local(cfg.parts[k]) /\ \A j \in 1..(k - 1) : ~Local(cfg.parts[j])]}
          ELSE Parts
MNext == \E p \in Movers : (Act(p) /\ UNCHANGED died) \/ Die(p)
AllEnded == \A p \in Parts : Ended(p)
Done == AllEnded /\ UNCHANGED vars
MSpec == MInit /\ [][MNext \/ Done]_vars
FairSpec == MSpec /\ \A p \in {"A", "B", "C"} : WF_vars(p \in Parts /\ Act(p) /\ UNCHANGED died)

-----------------------------------------------------------------------------
(* C01 *)
Windows(s, p) == St(p, s).tw
Active(p) == ps[p].pc \in {"idle", "look"}
EndTime(s) == IF cfg.sch[s].maxT # 0 THEN cfg.sch[s].maxT ELSE cfg.sch[s].maxW * Size
StepInv == \A p \in Parts : Active(p) =>
             /\ POngoing(p) => PMaxStep(p) > 0
             /\ ~POngoing(p) => /\ PMaxStep(p) = 0
                                /\ \A s \in Range(MySchemes(p)) : cfg.sch[s].meth = "fixed" => Time(St(p, s)) = EndTime(s)
(* nobody passes a window that its partner has not reached *)
TogetherInv == \A s \in 1..NS : \A p, q \in Parts : Mem(s, p) /\ Mem(s, q) /\ Active(p) /\ Active(q) /\ cfg.sch[s].meth = "fixed" =>
                 St(p, s).ws - St(q, s).ws <= Size * (IF Impl(s) THEN 1 ELSE MaxWin)
EndInv == AllEnded /\ died = "" /\ (\A p \in Parts : ps[p].pc = "done") =>
            \A p, q \in Parts : PTime(p) = PTime(q)
Drained == AllEnded /\ (\A p \in Parts : ps[p].pc = "done") => \A x \in DOMAIN ch : ch[x] = <<>>
Terminates == <>AllEnded

(* C02 *)
CheckpointInv == \A p \in Parts : Active(p) =>
  /\ PNeedsWrite(p) /\ PNeedsRead(p) => FALSE
  /\ PNeedsWrite(p) => St(p, Lead(p)).it = 1 /\ St(p, Lead(p)).pr = 0 /\ POngoing(p)
  /\ PNeedsRead(p)  => St(p, Lead(p)).it > 1 /\ St(p, Lead(p)).pr = 0 /\ ~PComplete(p)
IterInv == \A p \in Parts : \A s \in Range(MyImpl(p)) : St(p, s).it <= MaxIt
AgreeInv == AllEnded /\ (\A p \in Parts : ps[p].pc = "done") =>
  \A s \in 1..NS : Impl(s) => \A p, q \in Parts : Mem(s, p) /\ Mem(s, q) => St(p, s).tot = St(q, s).tot /\ St(p, s).tw = St(q, s).tw

(* C03, C06: which writes a participant may see, for fixed windows *)
SeenInv == \A p \in Parts : Active(p) /\ died = "" => \A i \in Range(InAll(p)) :
  LET s == cfg.ex[i].s  z == St(p, s)  e == cfg.ex[i]
      w == ps[p].rd[i]
      new == Sel(w, LAMBDA x : x.t > z.ws)
      old == Sel(w, LAMBDA x : x.t <= z.ws)
      cut == z.ws + MinI(Size, UntilEnd(s, z))
      it  == IF Impl(s) THEN z.it ELSE 1
  IN cfg.sch[s].meth = "fixed" /\ (Impl(s) \/ z.pr = 0 \/ NS = 1) /\ POngoing(p) =>
     /\ \A k \in 1..(Len(w) - 1) : w[k].t < w[k + 1].t
     /\ Len(old) = 1
     /\ old[1].t = z.ws
     \* start of the window: initial value or the converged end of the previous window
     /\ (z.ws = 0 => old[1].v[2] = 0)
     /\ (z.ws > 0 => TwOf(old[1].v) = z.tw - 1 /\ TOf(old[1].v) = z.ws)
     \* later samples: same window and iteration if computed before us, previous iteration otherwise
     /\ \A k \in 1..Len(new) :
          /\ new[k].t <= cut
          /\ TOf(new[k].v) = new[k].t \/ (~e.sub /\ TOf(new[k].v) = cut)
          /\ TwOf(new[k].v) = z.tw
          /\ Impl(s) => IF Serial(s) /\ IsSecond(s, p) THEN ItOf(new[k].v) = it ELSE ItOf(new[k].v) = it - 1
     /\ (~e.sub => Len(new) <= 1)
     \* as soon as there is something for the window it covers it up to its end
     /\ IF (Serial(s) /\ IsSecond(s, p)) \/ it > 1 THEN new # <<>> /\ LastOf(new).t = cut ELSE new = <<>>

(* N02: a participant that depends on a dead one neither hangs nor completes regularly *)
DeadInv == died # "" /\ AllEnded => \A p \in Parts :
             (ps[p].pc = "done" => \A s \in Range(MySchemes(p)) : ~Impl(s) \/ ~Mem(s, died))
=============================================================================
