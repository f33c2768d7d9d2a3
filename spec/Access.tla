------------------------------- MODULE Access --------------------------------
(***************************************************************************)
(* Direct access to a received mesh and just-in-time mapping.  The ranks of  *)
(* a participant define access regions on a mesh of another participant.     *)
(* They see the vertices inside of their region, write and read data on      *)
(* them, or at arbitrary coordinates inside of the region.  What was written *)
(* in a step is a set of contributions per vertex of the mesh.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Gen,          \* TRUE: print behaviours (simulation)
          Dims, Jits,   \* {2,3}, {"none","nn","pum","cg"}
          L,            \* lattice 0..L
          NV, NR,       \* numbers of vertices, of ranks
          NA, NStep,    \* actions per step, steps
          Filters       \* subset of BOOLEAN: may the mesh be restricted to the surrounding of the region?

VARIABLES ph, dim, jit, filter, n, verts, reg, at, acts, mine, got, tag
vars == <<ph, dim, jit, filter, n, verts, reg, at, acts, mine, got, tag>>

Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S
Points == {<<x, y, z>> : x \in 0..L, y \in 0..L, z \in (IF dim = 2 THEN {0} ELSE 0..L)}
In(p, b) == \A d \in 1..dim : b[1][d] <= p[d] /\ p[d] <= b[2][d]
Dist(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) + (p[3] - q[3]) * (p[3] - q[3])
Near(p) == {i \in DOMAIN verts : \A j \in DOMAIN verts : Dist(p, verts[i]) <= Dist(p, verts[j])}
NoReg == <<>>
Inside(p, r) == IF reg[r] = NoReg THEN TRUE ELSE In(p, reg[r])
Vis(r) == {i \in DOMAIN verts : Inside(verts[i], r)}
\* coordinates at which rank r may map: no ties; if the mesh is filtered, everything that matters is inside of the region
At(r) == {p \in Points : Inside(p, r) /\ Cardinality(Near(p)) = 1
          /\ (filter => \A i \in DOMAIN verts : (i \in Near(p) \/ (jit # "nn" /\ Dist(p, verts[i]) <= 4)) => Inside(verts[i], r))}
Ranks == 1..n.r
Empty == [r \in Ranks |-> [i \in DOMAIN verts |-> {}]]

Init == /\ ph = "start" /\ dim \in (IF Gen THEN {2} ELSE Dims) /\ jit = "none" /\ filter = FALSE /\ n = [v |-> 0, r |-> 0]
        /\ verts = <<>> /\ reg = <<>> /\ at = <<>> /\ acts = <<>> /\ mine = <<>> /\ got = <<>> /\ tag = 0
Start == /\ ph = "start" /\ ph' = "verts"
         /\ dim' \in Pick(Dims) /\ jit' \in Pick(Jits) /\ n' \in Pick([v : NV, r : NR]) /\ filter' \in Pick(Filters)
         /\ UNCHANGED <<verts, reg, acts, mine, got, tag, at>>
AddVertex == /\ ph = "verts" /\ Len(verts) < n.v
             /\ \E p \in Pick({q \in Points : \A i \in DOMAIN verts : verts[i] # q}) : verts' = Append(verts, p)
             /\ UNCHANGED <<ph, dim, jit, filter, n, reg, acts, mine, got, tag, at>>
Ivs == {v \in (0..L) \X (0..L) : v[1] < v[2]}
AddRegion == /\ ph = "verts" /\ Len(verts) = n.v /\ Len(reg) < n.r
             /\ \/ \E X \in Pick(Ivs), Y \in Pick(Ivs), Z \in (IF dim = 2 THEN {<<0, 0>>} ELSE Pick(Ivs)) :
                     reg' = Append(reg, <<<<X[1], Y[1], Z[1]>>, <<X[2], Y[2], Z[2]>>>>)
                \/ n.r = 1 /\ reg' = Append(reg, NoReg)
             /\ UNCHANGED <<ph, dim, jit, filter, n, verts, acts, mine, got, tag, at>>
\* nobody sees anything: an error, not part of this specification
Go == /\ ph = "verts" /\ Len(reg) = n.r /\ Len(verts) = n.v
      /\ IF \E r \in Ranks : Vis(r) # {} THEN ph' = "run" ELSE ph' = "end"
      /\ mine' = Empty /\ at' = [r \in Ranks |-> At(r)]
      /\ UNCHANGED <<dim, jit, filter, n, verts, reg, acts, got, tag>>

Cur == acts \* actions of the current step
Log(a) == acts' = Append(acts, a)
More == ph = "run" /\ Len(Cur) < NA /\ Len(got) < NStep
\* a rank overwrites values on some of the vertices it sees
WriteDirect(r) ==
  /\ More /\ Vis(r) # {}
  \* one data is not written in both ways in a step
  /\ \A i \in DOMAIN Cur : Cur[i].op # "wj"
  /\ \E S \in Pick(SUBSET Vis(r) \ {{}}) :
       /\ Log([op |-> "wd", r |-> r, vs |-> SetToSeq(S), tag |-> tag])
       /\ mine' = [mine EXCEPT ![r] = [i \in DOMAIN verts |-> IF i \in S THEN {<<tag, i>>} ELSE mine[r][i]]]
  /\ tag' = tag + 1 /\ UNCHANGED <<ph, dim, jit, filter, n, verts, reg, got, at>>
\* a rank adds values at coordinates
WriteJit(r) ==
  /\ More /\ jit # "none" /\ at[r] # {}
  /\ \A i \in DOMAIN Cur : Cur[i].op # "wd"
  /\ \E m \in Pick(1..3) : \E xs \in (IF Gen THEN {[k \in 1..m |-> RandomElement(at[r])]} ELSE [1..m -> at[r]]) :
       /\ Log([op |-> "wj", r |-> r, xs |-> xs, tag |-> tag])
       /\ mine' = [mine EXCEPT ![r] = [i \in DOMAIN verts |-> mine[r][i] \cup {<<tag, k>> : k \in {j \in 1..m : i \in Near(xs[j])}}]]
  /\ tag' = tag + 1 /\ UNCHANGED <<ph, dim, jit, filter, n, verts, reg, got, at>>
ReadDirect(r) ==
  /\ More /\ Vis(r) # {} /\ \E S \in Pick(SUBSET Vis(r) \ {{}}) : Log([op |-> "rd", r |-> r, vs |-> SetToSeq(S)])
  /\ UNCHANGED <<ph, dim, jit, filter, n, verts, reg, mine, got, tag, at>>
ReadJit(r) ==
  /\ More /\ jit \in {"nn", "pum"} /\ at[r] # {}
  /\ \E m \in Pick(1..3) : \E xs \in (IF Gen THEN {[k \in 1..m |-> RandomElement(at[r])]} ELSE [1..m -> at[r]]) :
       Log([op |-> "rj", r |-> r, xs |-> xs, near |-> [k \in 1..m |-> CHOOSE i \in Near(xs[k]) : TRUE]])
  /\ UNCHANGED <<ph, dim, jit, filter, n, verts, reg, mine, got, tag, at>>
\* coordinates outside of the region: rejected, nothing happens
Outside(r) ==
  /\ More /\ jit # "none" /\ reg[r] # NoReg
  /\ LET O == {p \in Points : ~ Inside(p, r)} IN O # {} /\ Vis(r) # {} /\
       \E p \in Pick(O), w \in Pick(BOOLEAN) : Log([op |-> "bad", r |-> r, x |-> p, w |-> w])
  /\ UNCHANGED <<ph, dim, jit, filter, n, verts, reg, mine, got, tag, at>>

\* the step ends: contributions of all ranks come together on the mesh
Total == [i \in DOMAIN verts |-> UNION {{<<r, c[1], c[2]>> : c \in mine[r][i]} : r \in Ranks}]
Step == /\ ph = "run" /\ Len(got) < NStep /\ (Gen => Len(Cur) = NA)
        /\ got' = Append(got, [acts |-> acts, total |-> [i \in DOMAIN verts |-> SetToSeq(Total[i])]])
        /\ acts' = <<>> /\ mine' = Empty
        /\ UNCHANGED <<ph, dim, jit, filter, n, verts, reg, tag, at>>
Emit == /\ ph = "run" /\ Gen /\ Len(got) = NStep /\ ph' = "end"
        /\ PrintT("@@" \o ToJson([dim |-> dim, jit |-> jit, filter |-> filter, verts |-> verts, reg |-> reg,
                                  vis |-> [r \in Ranks |-> SetToSortSeq(Vis(r), <)], steps |-> got]))
        /\ UNCHANGED <<dim, jit, filter, n, verts, reg, acts, mine, got, tag, at>>
Act(r) == WriteDirect(r) \/ WriteJit(r) \/ ReadDirect(r) \/ ReadJit(r) \/ Outside(r)
Next == Start \/ AddVertex \/ AddRegion \/ Go \/ (IF Gen /\ n.r > 0 THEN \E r \in {RandomElement(Ranks)} : Act(r) ELSE \E r \in Ranks : Act(r)) \/ Step \/ Emit
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Elements(s) == {<<a.r, a.tag, k>> : a \in {s.acts[i] : i \in {j \in DOMAIN s.acts : s.acts[j].op = "wj"}}, k \in 1..3}
Count(s) == FoldSeq(LAMBDA a, c : c + (IF a.op = "wj" THEN Len(a.xs) ELSE 0), 0, s.acts)
\* every just-in-time contribution of a step arrives exactly once, at a nearest vertex
OnceInv == \A m \in DOMAIN got : LET s == got[m] IN
   (\E i \in DOMAIN s.acts : s.acts[i].op = "wj") =>
     /\ FoldSeq(LAMBDA t, c : c + Len(t), 0, s.total) = Count(s)
     /\ Cardinality(UNION {ToSet(s.total[i]) : i \in DOMAIN s.total}) = Count(s)
\* a directly written vertex has the last value of every rank that sees it, others nothing
LastInv == \A m \in DOMAIN got : LET s == got[m] IN
   (\A i \in DOMAIN s.acts : s.acts[i].op # "wj") =>
     \A v \in DOMAIN s.total : \A r \in Ranks :
       LET w == {i \in DOMAIN s.acts : s.acts[i].op = "wd" /\ s.acts[i].r = r /\ \E k \in DOMAIN s.acts[i].vs : s.acts[i].vs[k] = v}
           t == {c \in ToSet(s.total[v]) : c[1] = r}
       IN IF w = {} THEN t = {} ELSE t = {<<r, s.acts[CHOOSE i \in w : \A j \in w : j <= i].tag, v>>}
\* nothing is written to a vertex that the rank does not see
SeenInv == \A m \in DOMAIN got : LET s == got[m] IN
   (\A i \in DOMAIN s.acts : s.acts[i].op # "wj") => \A v \in DOMAIN s.total : \A c \in ToSet(s.total[v]) : v \in Vis(c[1])
============================================================================
