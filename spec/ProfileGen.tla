----------------------------- MODULE ProfileGen ------------------------------
(* Call sequences of one process for replay, with the records to expect in each mode. *)
EXTENDS Profile, Json
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Free == Count < MaxOps
Bad == {"slash"} \union (IF open = <<>> THEN {"stop"} ELSE IF phase = "new" THEN {"init"} ELSE IF adv < todo THEN {"adv"} ELSE {})
       \union (IF phase = "run" /\ adv = todo /\ todo > 0 THEN {"late"} ELSE {})
Kinds == IF ~Free THEN {<<1, "go">>} ELSE
  (IF Len(open) < Depth THEN (1..3) \X {"start"} ELSE {}) \union (IF open # <<>> THEN (1..3) \X {"stop"} ELSE {})
  \union (1..3) \X {"call"} \union {<<1, "rej">>, <<1, "go">>} \union (IF Deaths THEN {<<1, "die">>} ELSE {})
Last1 == todo = -1 \/ (phase = "run" /\ adv = todo)
GNext ==
  \/ /\ Alive
     /\ \E c \in Pick(Kinds) :
        LET k == c[2] IN
        CASE k = "start" -> \E s \in Pick(Sections) : StartSection(s)
          [] k = "stop" -> StopSection
          [] k = "call" -> \E f \in Pick(Allowed) : Call(f)
          [] k = "rej" -> \E o \in Pick(Bad) : Reject(o)
          [] k = "die" -> Die
          [] k = "go" -> IF Last1 THEN Finalize ELSE IF open # <<>> THEN StopSection ELSE IF phase = "new" THEN Initialize ELSE Advance
  \/ /\ phase \in {"done", "dead"}
     /\ PrintT("@@" \o ToJson([todo |-> todo, dead |-> phase = "dead", ops |-> ops,
                               vis |-> [m \in {"off", "fundamental", "api", "all"} |-> Visible(all, m)]]))
     /\ phase' = "end" /\ UNCHANGED <<mode, limit, todo, open, adv, all, queue, file, known, ops>>
GSpec == Init /\ [][GNext]_vars
==============================================================================
