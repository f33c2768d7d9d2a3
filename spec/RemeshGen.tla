------------------------------ MODULE RemeshGen ------------------------------
(* Behaviours of two coupled participants that redefine meshes. *)
EXTENDS CouplingGen

CONSTANTS ResetOdds,   \* set of booleans to choose from: redefine if possible?
          Errors       \* TRUE: also steps that are too short after a redefinition

Meshes(p) == IF cfg.rm = "one" THEN {1} ELSE {1, 2}
MayReset(p) == POngoing(p) /\ PComplete(p)
RStart == /\ gen.step = "conv" /\ gen.todo = <<>>
          /\ \E k \in Pick({"one", "two"}) :
               cfg' = [parts |-> cfg.parts, scale |-> cfg.scale, sch |-> cfg.sch, ex |-> cfg.ex, rm |-> k]
          /\ gen' = [step |-> "run"]
          /\ ps' = [p \in Parts |-> PInit(p)]
          /\ ch' = [x \in Parts \X Parts |-> <<>>]
          /\ tr' = [p \in Parts |-> <<>>]

Ask(p) ==
  /\ ps[p].pc = "idle" /\ ps[p].ask
  /\ UNCHANGED <<cfg, ch, gen>>
  /\ \E r \in Pick(ResetOdds), S \in Pick((SUBSET Meshes(p)) \ {{}}) :
       IF MayReset(p) /\ r
       THEN /\ ps' = [ps EXCEPT ![p].ask = FALSE, ![p].rst = S,
                                ![p].gn = [m \in {1, 2} |-> IF m \in S THEN @[m] + 1 ELSE @[m]]]
            /\ Note(p, [op |-> "reset", m |-> S, ok |-> TRUE])
       ELSE /\ ps' = [ps EXCEPT ![p].ask = FALSE]
            /\ IF ~MayReset(p) /\ r /\ POngoing(p)
               THEN Note(p, [op |-> "reset", m |-> S, ok |-> FALSE])
               ELSE UNCHANGED tr

(* the step after a redefinition *)
FullStep(p) ==
  /\ ps[p].pc = "idle" /\ ~ps[p].ask /\ POngoing(p) /\ ps[p].dt = 0 /\ ps[p].rst # {}
  /\ LET m == PMaxStep(p) IN
     \E dt \in Pick(IF Errors THEN 1..m ELSE {m}) : ps' = [ps EXCEPT ![p].dt = dt, ![p].wn = dt]
  /\ UNCHANGED <<cfg, ch, tr, gen>>

(* reads within a window of new meshes are not specified, except for its end *)
RRead(p) ==
  /\ ps[p].pc = "look" /\ Len(ps[p].rq) < NReads /\ InAll(p) # <<>>
  /\ \E r \in Pick(IF ps[p].dirty THEN {PMaxStep(p)} ELSE 0..MinI(PMaxStep(p), 4)) :
       /\ ps' = [ps EXCEPT ![p].rq = Append(@, r)]
       /\ ReadAt(p, r)

RRun(p) == \/ ChooseInitW(p) \/ StartInit(p) \/ Ask(p) \/ FullStep(p)
           \/ (ps[p].rst = {} /\ ~ps[p].ask /\ ChooseDt(p))
           \/ ChooseW(p) \/ StartAdvance(p)
           \/ Step(p) \/ Return(p) \/ Failed(p) \/ RRead(p) \/ ReadDone(p) \/ Finish(p)

RNext == \/ GTopo \/ GSchMulti \/ GSch \/ GSchDone \/ GTime \/ GDir \/ GEx \/ GExDone \/ GDirDone
         \/ GConvN \/ GConv1 \/ GConvDone \/ RStart
         \/ gen.step = "run" /\ (\A p \in Parts : ps[p].pc # "skip") /\ Able # <<>> /\ RRun(Able[1])
         \/ Emit \/ EmitStuck
RSpec == GInit /\ [][RNext]_vars
=============================================================================
