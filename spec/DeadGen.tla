------------------------------- MODULE DeadGen -------------------------------
(***************************************************************************)
(* Runs of CouplingGen in which one participant ends without finishing the  *)
(* coupling: between two calls or while it waits inside of one.  Everybody  *)
(* records when that happens.                                               *)
(***************************************************************************)
EXTENDS CouplingGen

CONSTANT Rate   \* mean number of transitions before the end of a participant

Dead == "dead" \in DOMAIN gen

Death ==
  /\ gen.step = "run" /\ ~Dead
  /\ RandomElement(1..Rate) = 1
  /\ \A q \in Parts : tr[q] # <<>> /\ ps[q].pc \notin {"err", "fail", "skip"}
  /\ \E p \in Pick({x \in Parts : \/ ps[x].pc \in {"look", "idle"}
                                  \/ /\ Blocked(x) /\ tr[x][Len(tr[x])].op = "adv"
                                     /\ \A q \in Parts : Blocked(q) \/ Ended(q) \/ ps[q].pc \in {"look", "idle"}}) :
       /\ ps' = [ps EXCEPT ![p].pc = "err", ![p].todo = <<>>]
       /\ tr' = [q \in Parts |-> Append(tr[q], [op |-> IF q = p THEN "die" ELSE "dead"])]
       /\ gen' = [step |-> "run", dead |-> p]
       /\ UNCHANGED <<cfg, ch>>

DNext == GNext \/ Death
DSpec == GInit /\ [][DNext]_vars
=============================================================================
