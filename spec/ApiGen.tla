------------------------------- MODULE ApiGen -------------------------------
(***************************************************************************)
(* The API contract: which calls are accepted in which phase of a            *)
(* participant.  Runs of CouplingGen are interleaved with further API calls, *)
(* legal ones (which must not change anything the other calls observe) and   *)
(* illegal ones (which must be rejected with an error).  A rejected call     *)
(* either leaves the participant usable (argument and phase checks) or ends  *)
(* it ("fatal": checks made while the call is already being executed).       *)
(*                                                                           *)
(* Recorded steps:  [op "mesh"]                the mesh is defined            *)
(*                  [op "call", c, ok, fatal]  a further call                 *)
(***************************************************************************)
EXTENDS CouplingGen

CONSTANTS Solo,      \* TRUE: one participant that never initializes
          Soft,      \* TRUE: the caller catches errors and goes on
          Counts,    \* the interface passes the sizes of its arguments (C++; C and Fortran derive them)
          NCalls,    \* at most so many additional calls between two regular ones
          NIllegal   \* at most so many illegal calls per participant

VARIABLE api         \* per participant: [mesh, n, bad, reg, open]

avars == <<cfg, ps, ch, tr, gen, api>>

(* Phases *)
Phase(p) == CASE ps[p].pc = "new" -> IF api[p].mesh THEN "N1" ELSE "N0"
              [] ps[p].pc \in {"idle", "look"} -> IF POngoing(p) THEN "R" ELSE "E"
              [] ps[p].pc = "done" -> "F"
              [] OTHER -> "-"

(* Calls, by the phases in which they are accepted.  The names are expanded
   by the replay: OWN is a provided mesh, RECV a mesh received for mapping,
   DW / DR data written / read on the own mesh, UNK an unknown name.        *)
NotF == {"N0", "N1", "R", "E"}
Legal ==
  [c \in {"dims", "ddims-w", "ddims-r", "conn", "grad", "size", "dims-recv"} |-> NotF]
  @@ [c \in {"open", "close"} |-> NotF]
  @@ [c \in {"on", "complete", "dt", "ckpt-w", "ckpt-r"} |-> {"R", "E"}]
  @@ [c \in {"initdata"} |-> {"N0", "N1"}]
  @@ [c \in {"vertex-bad-dims", "vertices-bad-count", "vertex-recv", "vertex-unknown", "region-own", "region-recv", "region-unknown",
             "ids-own", "ids-unknown", "reset", "dims-unknown", "ddims-unknown-mesh", "ddims-unknown-data", "conn-unknown", "grad-unknown",
             "size-unknown", "section-slash", "write-unknown-mesh", "write-unknown-data", "write-readdata", "write-recv", "write-count",
             "write-id", "write-negative-id", "read-unknown-mesh", "read-unknown-data", "read-writedata", "read-recv", "read-count", "read-id",
             "read-late", "read-negative", "gradient", "mapread", "mapwrite", "edge-bad-id", "tri-repeat", "tri-bad-id", "edges-odd",
             "quad-repeat", "tet-bad-id", "grad-unknown-mesh", "ddims-other-mesh", "grad-other-mesh", "write-other-mesh", "read-other-mesh", "adv-zero", "adv-negative", "adv-nan", "adv-inf", "adv-long"} |-> {}]
  @@ [c \in {"size-recv"} |-> {"R", "E"}]
  @@ [c \in {"edge-ok", "tri-ok"} |-> {"N1"}]
  @@ [c \in {"vertex-none"} |-> {"N0", "N1"}]
  @@ [c \in {"write-zero"} |-> {"N1", "R"}]
  @@ [c \in {"write-none"} |-> {"N0", "N1", "R"}]
  @@ [c \in {"read-now"} |-> {"R", "E"}]
  @@ [c \in {"init"} |-> {}]
  @@ [c \in {"adv"} |-> {}]
  @@ [c \in {"fin"} |-> {}]
(* not tried in these phases *)
Skipped ==
  [c \in {"init"} |-> {"N0", "N1"}] @@ [c \in {"adv"} |-> {"R"}]
  \* the connectivity of a mesh that does not need any is ignored (see MeshDef)
  @@ [c \in {"edge-bad-id", "tri-repeat", "tri-bad-id", "edges-odd", "quad-repeat", "tet-bad-id", "edge-ok", "tri-ok"} |-> {"N0", "N1"}] @@ [c \in {"fin"} |-> {"N0", "N1", "R", "E"}]
  @@ [c \in {"dims-recv"} |-> {"F"}] @@ [c \in {"size-recv"} |-> {}]
  @@ [c \in {"adv-long"} |-> {}]
(* rejected only after the call has begun to act *)
FatalCalls == {"adv-long"}

Allowed(p, c) ==
  IF c = "close" THEN api[p].open > 0
  ELSE Phase(p) \in Legal[c]
Tried(p, c) ==
  /\ Phase(p) # "-"
  /\ c \in {"vertex-bad-dims", "vertices-bad-count", "write-count", "read-count", "edges-odd"} => Counts
  /\ c \in DOMAIN Skipped => Phase(p) \notin Skipped[c]
  \* a section may be opened by the call before an illegal one only if it is closed again
  /\ c \in {"adv-zero", "adv-negative", "adv-nan", "adv-inf"} => Phase(p) = "R"
  /\ c = "adv-long" => Phase(p) = "R" /\ PMaxStep(p) < INF
  /\ c \in {"open", "close"} => Phase(p) # "F"
  /\ c = "open" => api[p].open < 2
  /\ c = "read-late" => Phase(p) # "R" \/ PMaxStep(p) < INF

(* the regular calls that are not possible while a section is open *)
MayInit(p) == api[p].open = 0

Fatal(p, c) == ~Allowed(p, c) /\ (~Soft \/ c \in FatalCalls)
Extra(p) ==
  /\ gen.step = "run" /\ Phase(p) # "-" /\ api[p].n < NCalls
  /\ \E c \in Pick({x \in DOMAIN Legal : Tried(p, x) /\ (Allowed(p, x) \/ api[p].bad < NIllegal)
                                          /\ (Fatal(p, x) => Phase(p) \in {"R", "E", "F"} \/ Solo)}) :
       /\ tr' = [tr EXCEPT ![p] = Append(@, [op |-> "call", c |-> c, ok |-> Allowed(p, c), fatal |-> Fatal(p, c)])]
       /\ api' = [api EXCEPT ![p].n = @ + 1, ![p].bad = IF Allowed(p, c) THEN @ ELSE @ + 1,
                             ![p].open = CASE c = "open" -> @ + 1 [] c = "close" /\ Allowed(p, c) -> @ - 1 [] OTHER -> @]
       /\ IF Fatal(p, c) THEN ps' = [ps EXCEPT ![p].pc = "err", ![p].todo = <<>>] ELSE UNCHANGED ps
  /\ UNCHANGED <<cfg, ch, gen>>

(* no further calls now *)
Quiet(p) == /\ gen.step = "run" /\ api[p].n < NCalls
            /\ api' = [api EXCEPT ![p].n = NCalls]
            /\ UNCHANGED <<cfg, ps, ch, tr, gen>>

SetMesh(p) == /\ ps[p].pc = "new" /\ ~api[p].mesh /\ api[p].n >= NCalls
              /\ api' = [api EXCEPT ![p].mesh = TRUE, ![p].n = 0]
              /\ tr' = [tr EXCEPT ![p] = Append(@, [op |-> "mesh"])]
              /\ UNCHANGED <<cfg, ps, ch, gen>>

(* duties that were forgotten *)
BadInit(p) == /\ Solo /\ ps[p].pc = "new" /\ api[p].mesh /\ RequiresInit(p) /\ ~\E k \in 1..Len(tr[p]) : tr[p][k].op = "call" /\ tr[p][k].c = "initdata"
              /\ tr' = [tr EXCEPT ![p] = Append(@, [op |-> "call", c |-> "init-forgot", ok |-> FALSE, fatal |-> TRUE])]
              /\ ps' = [ps EXCEPT ![p].pc = "err"]
              /\ UNCHANGED <<cfg, ch, gen, api>>
BadCkpt(p) == /\ ps[p].pc = "idle" /\ (PNeedsWrite(p) \/ PNeedsRead(p)) /\ api[p].open = 0 /\ api[p].n >= NCalls
              /\ RandomElement(1..6) = 1
              /\ tr' = [tr EXCEPT ![p] = Append(@, [op |-> "call", c |-> "ckpt-forgot", ok |-> FALSE, fatal |-> TRUE])]
              /\ ps' = [ps EXCEPT ![p].pc = "err"]
              /\ UNCHANGED <<cfg, ch, gen, api>>
(* a call with an open section is rejected, then the section is closed *)
OpenSection(p) == /\ api[p].open > 0 /\ api[p].n >= NCalls
                  /\ (Soft /\ Phase(p) = "R") \/ (Phase(p) = "N1" /\ Soft)
                  /\ api' = [api EXCEPT ![p].open = 0]
                  /\ tr' = [tr EXCEPT ![p] = @ \o <<[op |-> "call", c |-> IF Phase(p) = "R" THEN "adv-open" ELSE "init-open", ok |-> FALSE, fatal |-> FALSE]>>
                                               \o [k \in 1..api[p].open |-> [op |-> "call", c |-> "close", ok |-> TRUE, fatal |-> FALSE]]]
                  /\ UNCHANGED <<cfg, ps, ch, gen>>
CloseSection(p) == /\ api[p].open > 0 /\ api[p].n >= NCalls
                   /\ api' = [api EXCEPT ![p].open = @ - 1]
                   /\ tr' = [tr EXCEPT ![p] = Append(@, [op |-> "call", c |-> "close", ok |-> TRUE, fatal |-> FALSE])]
                   /\ UNCHANGED <<cfg, ps, ch, gen>>

SoloEnd(p) == /\ Solo /\ ps[p].pc = "new" /\ api[p].mesh /\ api[p].n >= NCalls
              /\ ps' = [ps EXCEPT ![p].pc = "err"]
              /\ tr' = [tr EXCEPT ![p] = Append(@, [op |-> "del"])]
              /\ UNCHANGED <<cfg, ch, gen, api>>

Regular(p) ==
  \/ api[p].n >= NCalls /\ Phase(p) # "N0" /\ ~Solo
     /\ \/ /\ MayInit(p) \/ ps[p].pc = "look" \/ ~(ps[p].pc \in {"new", "idle"})
           /\ (ChooseInitW(p) \/ ChooseDt(p) \/ ChooseW(p) \/ ReadDone(p)) /\ UNCHANGED api
        \/ /\ MayInit(p) /\ (StartInit(p) \/ StartAdvance(p) \/ Finish(p))
           /\ api' = [api EXCEPT ![p].n = 0]
        \/ Read(p) /\ UNCHANGED api
  \/ (Step(p) \/ Return(p) \/ Failed(p)) /\ UNCHANGED api

ARun(p) == Extra(p) \/ Quiet(p) \/ SetMesh(p) \/ BadInit(p) \/ BadCkpt(p) \/ OpenSection(p) \/ CloseSection(p) \/ SoloEnd(p) \/ Regular(p)

AEnded(p) == ps[p].pc = "err" \/ (ps[p].pc = "done" /\ api[p].n >= NCalls)
Actors == IF Solo THEN <<cfg.parts[1]>> ELSE cfg.parts
AAble == SelectSeq(Actors, LAMBDA p : ~AEnded(p) /\ ps[p].pc # "skip" /\ ~Blocked(p))

AEmit ==
  /\ gen.step = "run" /\ \A p \in Range(Actors) : AEnded(p)
  /\ PrintT("@@" \o ToJson([cfg |-> cfg, tr |-> tr, solo |-> Solo, soft |-> Soft]))
  /\ gen' = [step |-> "end"]
  /\ UNCHANGED <<cfg, ps, ch, tr, api>>

AInit == GInit /\ api = [p \in {} |-> 0]
ANext == \/ /\ gen.step # "run" /\ (GTopo \/ GSchMulti \/ GSch \/ GSchDone \/ GTime \/ GDir \/ GEx \/ GExDone \/ GDirDone
                                     \/ GConvN \/ GConv1 \/ GConvDone) /\ UNCHANGED api
         \/ GStart /\ api' = [p \in Parts |-> [mesh |-> FALSE, n |-> 0, bad |-> 0, open |-> 0]]
         \/ gen.step = "run" /\ (\A p \in Parts : ps[p].pc # "skip") /\ AAble # <<>> /\ ARun(AAble[1])
         \/ AEmit
GASpec == AInit /\ [][ANext]_avars
=============================================================================
