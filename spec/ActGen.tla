------------------------------- MODULE ActGen -------------------------------
(* Runs of CouplingGen with data actions on the exchanged data: every value   *)
(* that is sent has been changed by the actions of the writer once, every     *)
(* value that is read by those of the reader once (Action.tla).  The effect   *)
(* is a factor per vertex, which commutes with mapping, time interpolation    *)
(* and relaxation; acts[i] are the actions on exchange i:                     *)
(*   w, r    scalings of writer and reader                                    *)
(*   split   the writer writes summands only                                  *)
(*   sum     the reader sums up this and other data of the same group         *)
(*   order   the sum is built before or after the scalings                    *)
EXTENDS CouplingGen

Scalings == {<<>>, <<"mul">>, <<"div">>, <<"mul", "mul">>, <<"mul", "div">>, <<"div", "div">>}
Groups == {0, 1, 2}
AStart == /\ gen.step = "conv" /\ gen.todo = <<>>
          /\ gen' = [step |-> "acts", acts |-> <<>>]
          /\ UNCHANGED <<cfg, ps, ch, tr>>
(* criteria refer to the exchanged values: no scalings there *)
AChoose == /\ gen.step = "acts" /\ Len(gen.acts) < NE
           /\ LET i == Len(gen.acts) + 1 IN
              \E w \in Pick(IF Measured(i) THEN {<<>>} ELSE Scalings), r \in Pick(IF Measured(i) THEN {<<>>} ELSE Scalings),
                 sp \in Pick(IF Measured(i) THEN {FALSE} ELSE {TRUE, FALSE}), g \in Pick(Groups), o \in Pick({"before", "after"}) :
                 gen' = [gen EXCEPT !.acts = Append(@, [w |-> w, r |-> r, split |-> sp, sum |-> g, order |-> o])]
           /\ UNCHANGED <<cfg, ps, ch, tr>>
ARun == /\ gen.step = "acts" /\ Len(gen.acts) = NE
        /\ gen' = [gen EXCEPT !.step = "run"]
        /\ ps' = [p \in Parts |-> PInit(p)]
        /\ ch' = [x \in Parts \X Parts |-> <<>>]
        /\ tr' = [p \in Parts |-> <<>>]
        /\ UNCHANGED cfg
EmitA ==
  /\ gen.step = "run" /\ \A p \in Parts : Ended(p)
  /\ PrintT("@@" \o ToJson([cfg |-> cfg, tr |-> tr, acts |-> gen.acts]))
  /\ gen' = [step |-> "end"]
  /\ UNCHANGED <<cfg, ps, ch, tr>>

ANext == \/ GTopo \/ GSchMulti \/ GSch \/ GSchDone \/ GTime \/ GDir \/ GEx \/ GExDone \/ GDirDone
         \/ GConvN \/ GConv1 \/ GConvDone \/ AStart \/ AChoose \/ ARun
         \/ gen.step = "run" /\ (\A p \in Parts : ps[p].pc # "skip") /\ Able # <<>> /\ Run(Able[1])
         \/ EmitA \/ EmitStuck
ASpec == GInit /\ [][ANext]_vars
=============================================================================
