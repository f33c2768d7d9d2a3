----------------------------- MODULE CouplingGen -----------------------------
(***************************************************************************)
(* Chooses a configuration step by step, lets the participants run with     *)
(* chosen step sizes, written values and read times, and prints the          *)
(* configuration with the expected result of every call as one JSON line.    *)
(* Used with TLC -simulate.                                                  *)
(***************************************************************************)
EXTENDS Coupling

CONSTANTS Topos,       \* subset of {"bi","chain","star","tri","multi","multi+"}
          BiKinds,     \* kinds for a two-participant coupling
          MaxWin,      \* bound for the number of windows
          MaxIt,       \* bound for the number of iterations
          Sizes,       \* window sizes in ticks
          Degs,        \* waveform degrees
          NData,       \* set of numbers of data per direction
          InitP,       \* set of choices for initialize
          SubP,        \* set of choices for substeps
          AccP,        \* set of choices: FALSE no acceleration, TRUE relaxation
          FirstP,      \* set of choices: first-participant method
          ConvTypes,   \* allowed types of convergence measures
          NConv,       \* allowed numbers of measures
          NReads,      \* reads per returned call
          Scale,       \* unit of written values
          Partial,     \* TRUE: allow partially written meshes
          Share,       \* TRUE: the same data may go to several participants
          SharedSubs   \* TRUE: also with substeps through different schemes (known finding C05-shared)

vars == <<cfg, ps, ch, tr, gen>>

Template(t) ==
  CASE t = "bi"     -> [parts |-> <<"A", "B">>, slots |-> <<<<"A", "B">>>>, multi |-> <<>>]
    [] t = "chain"  -> [parts |-> <<"A", "B", "C">>, slots |-> <<<<"A", "B">>, <<"B", "C">>>>, multi |-> <<>>]
    [] t = "star"   -> [parts |-> <<"A", "B", "C", "D">>, slots |-> <<<<"A", "B">>, <<"A", "C">>, <<"A", "D">>>>, multi |-> <<>>]
    [] t = "tri"    -> [parts |-> <<"A", "B", "C">>, slots |-> <<<<"A", "B">>, <<"B", "C">>, <<"A", "C">>>>, multi |-> <<>>]
    [] t = "multi"  -> [parts |-> <<"A", "B", "C">>, slots |-> <<>>, multi |-> <<"A", "B", "C">>]
    [] t = "multi+" -> [parts |-> <<"A", "B", "C", "D">>, slots |-> <<<<"B", "D">>>>, multi |-> <<"A", "B", "C">>]

(* a random element in simulation, all of them otherwise *)
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

EmptyCfg == [parts |-> <<>>, sch |-> <<>>, ex |-> <<>>, scale |-> Scale]

GInit == /\ cfg = EmptyCfg
         /\ ps = [p \in {} |-> 0] /\ ch = [p \in {} |-> 0] /\ tr = [p \in {} |-> 0]
         /\ gen = [step |-> "topo"]

Keep == UNCHANGED <<ps, ch, tr>>

GTopo ==
  /\ gen.step = "topo"
  /\ \E t \in Pick(Topos) : LET m == Template(t) IN
       \E perm \in Pick(Permutations(1..Len(m.slots))) :
         /\ cfg' = [cfg EXCEPT !.parts = m.parts]
         /\ gen' = [step |-> "sch", topo |-> t, multi |-> m.multi,
                    slots |-> [k \in 1..Len(m.slots) |-> m.slots[perm[k]]],
                    mpos |-> IF m.multi = <<>> THEN 0 ELSE 1]
  /\ Keep

Blank(kind, a, b, oth) ==
  [kind |-> kind, a |-> a, b |-> b, oth |-> oth, meth |-> "fixed", size |-> 0, maxT |-> 0, maxW |-> 0,
   minI |-> 1, maxI |-> 0, conv |-> <<>>, acc |-> [on |-> 1, od |-> 1, ex |-> <<>>]]

(* an implicit scheme may be added for p only if it has none yet *)
FreeForImpl(p) == ~\E s \in 1..NS : Impl(s) /\ Mem(s, p)
(* participants that compute simultaneously or iterate together form one
   group; the groups have to be computable one after the other             *)
SerialEdges == {<<cfg.sch[s].a, cfg.sch[s].b>> : s \in {x \in 1..NS : Kind(x) = "SE"}}
GroupEdges == UNION {{<<p, q>> : p \in {x \in Parts : Mem(s, x)}, q \in {x \in Parts : Mem(s, x)}} : s \in {x \in 1..NS : Kind(x) # "SE"}}
RECURSIVE Reach(_, _)
Reach(e, X) == LET Y == X \cup {y[2] : y \in {z \in e : z[1] \in X}} IN IF Y = X THEN X ELSE Reach(e, Y)
Computable == \A e \in SerialEdges : e[1] \notin Reach(SerialEdges \cup GroupEdges, {e[2]})

GSchMulti ==
  /\ gen.step = "sch" /\ gen.mpos = 1 /\ gen.multi # <<>>
  /\ \E c \in Range(gen.multi) :
       cfg' = [cfg EXCEPT !.sch = Append(@, Blank("MI", "", c, SelectSeq(gen.multi, LAMBDA x : x # c)))]
  /\ gen' = [gen EXCEPT !.mpos = 2]
  /\ Keep

Kinds == IF gen.topo = "bi" THEN BiKinds ELSE {"SE", "PE", "SI", "PI"}
GSch ==
  /\ gen.step = "sch" /\ gen.mpos # 1 /\ gen.slots # <<>>
  /\ LET x == gen.slots[1] IN
     \E k \in Kinds, o \in {1, 2} :
        LET a == x[o]  b == x[3 - o] IN
        /\ k \in {"SI", "PI"} => FreeForImpl(a) /\ FreeForImpl(b)
        /\ cfg' = [cfg EXCEPT !.sch = Append(@, Blank(k, a, b, <<>>))]
  /\ gen' = [gen EXCEPT !.slots = Tail(@)]
  /\ Keep

GSchDone ==
  /\ gen.step = "sch" /\ gen.mpos # 1 /\ gen.slots = <<>>
  /\ gen' = [step |-> IF Computable THEN "time" ELSE "discard"]
  /\ UNCHANGED cfg /\ Keep

HasImpl == \E s \in 1..NS : Impl(s)
GTime ==
  /\ gen.step = "time"
  /\ IF NS = 1
     THEN \E size \in Pick(Sizes), how \in Pick({"W", "T", "TW"}), n \in Pick(1..MaxWin), cut \in Pick({0, 1}) : \E first \in Pick(FirstP) :
            LET W == IF how \in {"W", "TW"} THEN n ELSE 0
                T == IF how \in {"T", "TW"} THEN n * size - (IF cut < size THEN cut ELSE 0) ELSE 0
                f == first /\ Serial(1)
            IN cfg' = [cfg EXCEPT !.sch[1].size = IF f THEN 0 ELSE size, !.sch[1].maxW = W, !.sch[1].maxT = T,
                                  !.sch[1].meth = IF f THEN "first" ELSE "fixed"]
     ELSE \E base \in Pick({1, 2}), n \in Pick(1..MaxWin), cut \in Pick({0, 1}) :
            \E mult \in Pick([1..NS -> IF HasImpl THEN {1, 2} ELSE {1, 2, 3}]) :
              \* the implicit window divides the explicit ones
              LET mu == [s \in 1..NS |-> IF Impl(s) THEN 1 ELSE mult[s]]
                  same == \A s \in 1..NS : mu[s] = 1
                  T == n * base - (IF base = 2 THEN cut ELSE 0)
              IN \* schemes of different window sizes only share a common end time
                 \E useW \in Pick(IF same THEN {TRUE, FALSE} ELSE {FALSE}) :
                      cfg' = [cfg EXCEPT !.sch = [s \in 1..NS |->
                                [@[s] EXCEPT !.size = base * mu[s], !.maxW = IF useW THEN n ELSE 0,
                                             !.maxT = IF useW THEN 0 ELSE T]]]
  /\ gen' = [step |-> "dir", dirs |->
       Flat(LAMBDA s : IF Multi(s)
                       THEN Flat(LAMBDA q : <<[s |-> s, f |-> q, t |-> cfg.sch[s].b], [s |-> s, f |-> cfg.sch[s].b, t |-> q]>>, cfg.sch[s].oth)
                            \o <<[s |-> s, f |-> cfg.sch[s].oth[1], t |-> cfg.sch[s].oth[2]]>>
                       ELSE <<[s |-> s, f |-> cfg.sch[s].a, t |-> cfg.sch[s].b], [s |-> s, f |-> cfg.sch[s].b, t |-> cfg.sch[s].a]>>,
            [s \in 1..NS |-> s])]
  /\ Keep

(* number of data for every direction *)
GDir ==
  /\ gen.step = "dir" /\ gen.dirs # <<>>
  /\ LET x == gen.dirs[1]
         side == Multi(x.s) /\ x.f # cfg.sch[x.s].b /\ x.t # cfg.sch[x.s].b  \* not via the controller
     IN
     \E n \in (IF side THEN {0, 1} ELSE NData) :
       /\ (n = 0) => \/ side
                     \/ /\ ~Impl(x.s)
                        /\ x.f # cfg.sch[x.s].a \/ TRUE
                        /\ (x.f = cfg.sch[x.s].b) => \E i \in 1..NE : cfg.ex[i].s = x.s
       /\ gen' = [step |-> "ex", n |-> n, x |-> x, dirs |-> Tail(gen.dirs)]
  /\ UNCHANGED cfg /\ Keep

Names == <<"D1", "D2", "D3", "D4", "D5", "D6", "D7", "D8", "D9", "D10", "D11", "D12", "D13", "D14">>
NNames == Cardinality({cfg.ex[i].d : i \in 1..NE})
GEx ==
  /\ gen.step = "ex" /\ gen.n > 0
  /\ LET x == gen.x IN
     \/ \E init \in InitP, sub \in SubP, deg \in Degs :
          /\ deg = 0 => ~sub
          /\ deg >= 2 => sub
          /\ cfg' = [cfg EXCEPT !.ex = Append(@, [d |-> Names[NNames + 1], s |-> x.s, from |-> x.f, to |-> x.t,
                                                  init |-> init, sub |-> sub, deg |-> deg])]
     \/ /\ Share
        /\ \E j \in 1..NE, init \in InitP, sub \in SubP :
          /\ cfg.ex[j].from = x.f /\ cfg.ex[j].to # x.t
          /\ ~\E i \in 1..NE : cfg.ex[i].d = cfg.ex[j].d /\ cfg.ex[i].to = x.t
          /\ cfg.ex[j].deg = 0 => ~sub
          /\ cfg.ex[j].deg >= 2 => sub
          /\ cfg.ex[j].s = x.s => sub = cfg.ex[j].sub /\ init = cfg.ex[j].init
          \* known finding C05-shared: schemes share one list of samples
          /\ cfg.ex[j].s # x.s => SharedSubs \/ (~sub /\ ~cfg.ex[j].sub)
          /\ cfg' = [cfg EXCEPT !.ex = Append(@, [d |-> cfg.ex[j].d, s |-> x.s, from |-> x.f, to |-> x.t,
                                                  init |-> init, sub |-> sub, deg |-> cfg.ex[j].deg])]
  /\ gen' = [gen EXCEPT !.n = @ - 1]
  /\ Keep
GExDone ==
  /\ gen.step = "ex" /\ gen.n = 0
  /\ gen' = [step |-> "dir", dirs |-> gen.dirs]
  /\ UNCHANGED cfg /\ Keep
GDirDone ==
  /\ gen.step = "dir" /\ gen.dirs = <<>>
  /\ gen' = [step |-> "conv", todo |-> IdxSeq(LAMBDA s : Impl(s), NS), n |-> -1]
  /\ UNCHANGED cfg /\ Keep

Limits(type) == CASE type = "abs" -> {(2 * k + 1) * (Scale \div 2) + 1 : k \in 0..3}
                  [] type = "rel" -> {101, 299, 703}
                  [] type = "res" -> {101, 499, 1000}
                  [] type = "aor" -> {Scale \div 2 + 1, 3 * (Scale \div 2) + 1}
GConvN ==
  /\ gen.step = "conv" /\ gen.todo # <<>> /\ gen.n = -1
  /\ LET s == gen.todo[1] IN
     \E n \in NConv, maxI \in 0..MaxIt, minI \in 1..MaxIt :
       /\ (n = 0) => maxI > 0
       /\ (maxI > 0) => minI <= maxI
       /\ (maxI = 0) => minI <= 2
       /\ cfg' = [cfg EXCEPT !.sch[s].maxI = maxI, !.sch[s].minI = minI]
       /\ gen' = [gen EXCEPT !.n = n]
  /\ Keep
GConv1 ==
  /\ gen.step = "conv" /\ gen.todo # <<>> /\ gen.n > 0
  /\ LET s == gen.todo[1]
         cand == {i \in 1..NE : cfg.ex[i].s = s /\ (cfg.ex[i].from = cfg.sch[s].b \/ cfg.ex[i].to = cfg.sch[s].b)
                                /\ \A k \in 1..Len(cfg.sch[s].conv) : cfg.ex[cfg.sch[s].conv[k].i].d # cfg.ex[i].d}
     IN
     \/ /\ cand = {}
        /\ gen' = [gen EXCEPT !.n = 0]
        /\ UNCHANGED cfg
     \/ \E i \in Pick(cand), type \in Pick(ConvTypes) : \E n \in Pick(Limits(type)), suf \in {TRUE, FALSE}, str \in {TRUE, FALSE} :
          /\ str => cfg.sch[s].maxI > 0 /\ ~suf
          /\ cfg' = [cfg EXCEPT !.sch[s].conv = Append(@, [i |-> i, type |-> type, n |-> n, d |-> 299, suffices |-> suf, strict |-> str])]
          /\ gen' = [gen EXCEPT !.n = @ - 1]
  /\ Keep
GConvDone ==
  /\ gen.step = "conv" /\ gen.todo # <<>> /\ gen.n = 0
  /\ LET s == gen.todo[1]
         cand == {i \in 1..NE : cfg.ex[i].s = s /\ (cfg.ex[i].from = cfg.sch[s].b \/ (~Serial(s) /\ cfg.ex[i].to = cfg.sch[s].b))}
     IN \E acc \in AccP :
          IF acc THEN \E on \in {1, 3, 4} :    \* relaxation acts on all data of the scheme
                        cfg' = [cfg EXCEPT !.sch[s].acc = [on |-> IF on = 3 THEN 1 ELSE on, od |-> IF on = 1 THEN 2 ELSE 4,
                                      ex |-> IdxSeq(LAMBDA i : i \in cand, NE)]]
          ELSE UNCHANGED cfg
  /\ gen' = [gen EXCEPT !.todo = Tail(@), !.n = -1]
  /\ Keep
GStart ==
  /\ gen.step = "conv" /\ gen.todo = <<>>
  /\ gen' = [step |-> "run"]
  /\ ps' = [p \in Parts |-> PInit(p)]
  /\ ch' = [x \in Parts \X Parts |-> <<>>]
  /\ tr' = [p \in Parts |-> <<>>]
  /\ UNCHANGED cfg

-----------------------------------------------------------------------------
Measured(i) == \E s \in 1..NS : \E k \in 1..Len(cfg.sch[s].conv) : cfg.ex[cfg.sch[s].conv[k].i].d = cfg.ex[i].d
(* long windows settle: values are repeated from some iteration on *)
Settled(p) == \E k \in 1..Len(MyImpl(p)) : St(p, MyImpl(p)[k]).it > MaxIt + 1
Vals(p, i) ==
  IF Settled(p) THEN {ps[p].lw[i]} ELSE
  {<<k * Scale, k * Scale>> : k \in {0, 1, 2, 3, 5, 6}} \cup {ps[p].lw[i]}
  \cup (IF Partial /\ ~Measured(i) THEN {<<2 * Scale, 0>>, <<0, 3 * Scale>>} ELSE {})

ChooseInitW(p) ==
  /\ ps[p].pc = "new" /\ Len(ps[p].w) < Len(WList(p))
  /\ LET i == WList(p)[Len(ps[p].w) + 1] IN
     \E v \in Pick(IF InitWritable(p, i) THEN Vals(p, i) ELSE {Zero}) :
        ps' = [ps EXCEPT ![p].w = Append(@, v)]
  /\ UNCHANGED <<cfg, ch, tr, gen>>

ChooseDt(p) ==
  /\ ps[p].pc = "idle" /\ POngoing(p) /\ ps[p].dt = 0
  /\ LET m == PMaxStep(p)
         lead == Lead(p)
         fixedDt == FirstMeth(lead) /\ ~IsSecond(lead, p) /\ Impl(lead) /\ St(p, lead).it > 1
     IN \E dt \in Pick(IF fixedDt THEN {ps[p].wn} ELSE 1..MinI(m, 3) \cup (IF m = INF THEN {} ELSE {m})) :
          ps' = [ps EXCEPT ![p].dt = dt, ![p].wn = dt]
  /\ UNCHANGED <<cfg, ch, tr, gen>>

ChooseW(p) ==
  /\ ps[p].pc = "idle" /\ ps[p].dt > 0 /\ Len(ps[p].w) < Len(WList(p))
  /\ LET i == WList(p)[Len(ps[p].w) + 1] IN
     \E v \in Pick(Vals(p, i)) : ps' = [ps EXCEPT ![p].w = Append(@, v)]
  /\ UNCHANGED <<cfg, ch, tr, gen>>

Read(p) ==
  /\ ps[p].pc = "look" /\ Len(ps[p].rq) < NReads /\ InAll(p) # <<>>
  /\ \E r \in Pick(0..MinI(PMaxStep(p), 4)) :
       /\ ps' = [ps EXCEPT ![p].rq = Append(@, r)]
       /\ ReadAt(p, r)
ReadDone(p) ==
  /\ ps[p].pc = "look" /\ (Len(ps[p].rq) = NReads \/ InAll(p) = <<>>)
  /\ ps' = [ps EXCEPT ![p].pc = "idle"]
  /\ UNCHANGED <<cfg, ch, tr, gen>>

Run(p) == \/ ChooseInitW(p) \/ StartInit(p) \/ ChooseDt(p) \/ ChooseW(p) \/ StartAdvance(p)
          \/ Step(p) \/ Return(p) \/ Failed(p) \/ Read(p) \/ ReadDone(p) \/ Finish(p)

(* Blocking operations only ever wait for a message of one given partner, so
   the result of a run does not depend on the interleaving (the exhaustive
   model checks that): participants are served in a fixed order.            *)
Blocked(p) == /\ ps[p].pc = "busy" /\ ps[p].todo # <<>>
              /\ Head(ps[p].todo).o \in {"rcv", "rcv?", "rsz", "rhs"}
              /\ ch[<<Head(ps[p].todo).q, p>>] = <<>> /\ ps[Head(ps[p].todo).q].pc # "err"
Able == SelectSeq(cfg.parts, LAMBDA p : ~Ended(p) /\ ps[p].pc # "skip" /\ ~Blocked(p))

Stuck == gen.step = "run" /\ (\A p \in Parts : ps[p].pc # "skip") /\ Able = <<>> /\ ~(\A p \in Parts : Ended(p))

EmitStuck ==
  /\ Stuck
  /\ PrintT("@@" \o ToJson([cfg |-> cfg, stuck |-> [p \in Parts |-> IF ps[p].todo = <<>> THEN ps[p].pc ELSE Head(ps[p].todo)]]))
  /\ gen' = [step |-> "end"]
  /\ UNCHANGED <<cfg, ps, ch, tr>>

Emit ==
  /\ gen.step = "run" /\ \A p \in Parts : Ended(p)
  /\ PrintT("@@" \o ToJson([cfg |-> cfg, tr |-> tr]))
  /\ gen' = [step |-> "end"]
  /\ UNCHANGED <<cfg, ps, ch, tr>>

GNext == \/ GTopo \/ GSchMulti \/ GSch \/ GSchDone \/ GTime \/ GDir \/ GEx \/ GExDone \/ GDirDone
         \/ GConvN \/ GConv1 \/ GConvDone \/ GStart
         \/ gen.step = "run" /\ (\A p \in Parts : ps[p].pc # "skip") /\ Able # <<>> /\ Run(Able[1])
         \/ Emit \/ EmitStuck

NoDeadlock == ~Stuck
GSpec == GInit /\ [][GNext]_vars
=============================================================================
