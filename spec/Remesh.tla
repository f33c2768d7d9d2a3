------------------------------- MODULE Remesh -------------------------------
(***************************************************************************)
(* Redefinition of meshes between windows: exhaustive checking.  A           *)
(* participant may redefine its meshes whenever a window is complete.  The   *)
(* invariants are those of the coupling without remeshing (windows, time,    *)
(* iterations, termination) and that a message is always interpreted on the  *)
(* meshes it was written for.                                                *)
(***************************************************************************)
EXTENDS CouplingMC

CONSTANTS MaxReset

RConfigs == {[parts |-> c.parts, scale |-> c.scale, sch |-> c.sch, ex |-> c.ex, rm |-> "one"] : c \in Configs}
RInit == /\ cfg \in RConfigs
         /\ ps = [p \in Range(cfg.parts) |-> PInit(p)]
         /\ ch = [x \in Range(cfg.parts) \X Range(cfg.parts) |-> <<>>]
         /\ tr = <<>> /\ gen = [step |-> "run"] /\ died = ""

MayReset(p) == POngoing(p) /\ PComplete(p)
Ask(p) == /\ ps[p].pc = "idle" /\ ps[p].ask
          /\ \E r \in {FALSE, TRUE} :
               /\ r => MayReset(p) /\ ps[p].gn[1] < MaxReset
               /\ ps' = [ps EXCEPT ![p].ask = FALSE, ![p].rst = IF r THEN {1} ELSE {}, ![p].gn[1] = IF r THEN @ + 1 ELSE @]
          /\ UNCHANGED <<cfg, ch, tr, gen>>
(* a redefinition is announced at the end of the window: earlier ends are errors *)
RChooseStep(p) == ps[p].ask = FALSE /\ ChooseStep(p)
RAct(p) == Ask(p) \/ ChooseInit(p) \/ StartInit(p) \/ RChooseStep(p) \/ ChooseWrite(p) \/ StartAdvance(p)
           \/ Step(p) \/ Return(p) \/ Failed(p) \/ Look(p) \/ Finish(p)
RNext == \E p \in Movers : RAct(p) /\ UNCHANGED died
RSpec == RInit /\ [][RNext \/ Done]_vars
RFair == RSpec /\ \A p \in {"A", "B"} : WF_vars(p \in Parts /\ RAct(p) /\ UNCHANGED died)

-----------------------------------------------------------------------------
(* messages with data are read on the meshes they were written for *)
MsgInv == \A x \in Parts \X Parts : ch[x] # <<>> /\ Head(ch[x]).k = "D" /\ ps[x[2]].pc = "busy" /\ ps[x[2]].todo # <<>>
                                     /\ Head(ps[x[2]].todo).o = "rcv" => Head(ch[x]).g = ps[x[2]].pg
(* whoever completes a window knows the meshes its partner used for it *)
KnowInv == \A p, q \in Parts : p # q /\ Active(p) /\ Active(q) /\ St(p, 1).ws = St(q, 1).ws /\ ps[q].rst = {} /\ ps[p].rst = {}
              /\ St(p, 1).it = St(q, 1).it => ps[p].pg = ps[q].gn
(* an error is only due to a short step after a redefinition *)
Short(p) == ps[p].pc \in {"fail", "err"}
ErrInv == (\A p \in Parts : ps[p].pc # "err") \/ \E p \in Parts : Short(p) /\ ps[p].rst # {}
(* what is read (SeenInv), except for the parts of a window that are lost with its meshes *)
ReadInv == (\A p \in Parts : ~ps[p].dirty) /\ (\A p \in Parts : ~Short(p)) => SeenInv
EndValues == \A p \in Parts : Active(p) /\ POngoing(p) /\ (\A q \in Parts : ~Short(q)) => \A i \in Range(InAll(p)) :
               LET z == St(p, 1)  w == LastOf(ps[p].rd[i]) IN
               Impl(1) /\ z.it > 1 /\ z.pr = 0 => TwOf(w.v) = z.tw /\ ItOf(w.v) = z.it - 1
=============================================================================
