------------------------------ MODULE OutputMC ------------------------------
(* Exhaustive check of what the result files promise, on small couplings. *)
EXTENDS CouplingMC, Output
OMInit == /\ cfg \in Configs
          /\ ps = [p \in Range(cfg.parts) |-> PInit(p)]
          /\ ch = [x \in Range(cfg.parts) \X Range(cfg.parts) |-> <<>>]
          /\ tr = [p \in Range(cfg.parts) |-> <<>>] /\ gen = [step |-> "run"] /\ died = ""
OMSpec == OMInit /\ [][MNext \/ Done]_vars
=============================================================================
