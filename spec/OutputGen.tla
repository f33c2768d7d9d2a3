------------------------------ MODULE OutputGen ------------------------------
(* Runs of CouplingGen together with the result files they have to produce. *)
EXTENDS CouplingGen, Output

EmitO ==
  /\ gen.step = "run" /\ \A p \in Parts : Ended(p)
  /\ PrintT("@@" \o ToJson([cfg |-> cfg, tr |-> tr, files |-> [p \in Parts |-> IF Rets(p) = <<>> THEN [none |-> TRUE] ELSE Files(p)]]))
  /\ gen' = [step |-> "end"]
  /\ UNCHANGED <<cfg, ps, ch, tr>>

ONext == \/ GTopo \/ GSchMulti \/ GSch \/ GSchDone \/ GTime \/ GDir \/ GEx \/ GExDone \/ GDirDone
         \/ GConvN \/ GConv1 \/ GConvDone \/ GStart
         \/ gen.step = "run" /\ (\A p \in Parts : ps[p].pc # "skip") /\ Able # <<>> /\ Run(Able[1])
         \/ EmitO \/ EmitStuck
OSpec == GInit /\ [][ONext]_vars
=============================================================================
