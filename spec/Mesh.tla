-------------------------------- MODULE Mesh ---------------------------------
(***************************************************************************)
(* Definition of a mesh by a sequence of calls: vertices get consecutive ids,*)
(* elements refer to them.  Invalid elements are rejected.  The defined mesh *)
(* consists of the vertices, the elements, and everything they imply.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Gen, Dims, L, NV, NC,     \* dimensions, lattice 0..L, vertices, calls
          Needs,                    \* subset of BOOLEAN: is connectivity required?
          Ops,                      \* kinds of calls
          KV, KB                    \* numbers of vertices and elements of a bulk call

VARIABLES ph, dim, need, n, verts, calls, edges, tris, tets, quads
vars == <<ph, dim, need, n, verts, calls, edges, tris, tets, quads>>

Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S
Points == {<<x, y, z>> : x \in 0..L, y \in 0..L, z \in (IF dim = 2 THEN {0} ELSE 0..L)}
Minus(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
Dot(p, q) == p[1] * q[1] + p[2] * q[2] + p[3] * q[3]
Cross(p, q) == <<p[2] * q[3] - p[3] * q[2], p[3] * q[1] - p[1] * q[3], p[1] * q[2] - p[2] * q[1]>>
Normal(a, b, c) == Cross(Minus(b, a), Minus(c, a))
Zero == <<0, 0, 0>>

Ids == 0..(Len(verts) - 1)
P(i) == verts[i + 1]
Known(e) == \A k \in DOMAIN e : e[k] \in Ids
Distinct(e) == \A j, k \in DOMAIN e : j # k => e[j] # e[k]
----------------------------------------------------------------------------
\* a quad is the sequence of its vertices in any order
Triples(q) == {T \in SUBSET ToSet(q) : Cardinality(T) = 3}
Collinear(T) == LET s == SetToSeq(T) IN Normal(P(s[1]), P(s[2]), P(s[3])) = Zero
\* the pairs of opposite vertices of a convex quad: both segments cross
Opposite(i, j, k, l) == Dot(Normal(P(i), P(j), P(k)), Normal(P(i), P(j), P(l))) < 0
Pairings(q) == {{{q[1], q[2]}, {q[3], q[4]}}, {{q[1], q[3]}, {q[2], q[4]}}, {{q[1], q[4]}, {q[2], q[3]}}}
Crossing(pr) == LET s == SetToSeq(pr) a == SetToSeq(s[1]) b == SetToSeq(s[2])
                IN Opposite(a[1], a[2], b[1], b[2]) /\ Opposite(b[1], b[2], a[1], a[2])
Len2(d) == LET s == SetToSeq(d) v == Minus(P(s[1]), P(s[2])) IN Dot(v, v)
Split(pr, d) == {d \cup {x} : x \in UNION (pr \ {d})}
Planar(q) == Dot(Normal(P(q[1]), P(q[2]), P(q[3])), Minus(P(q[4]), P(q[1]))) = 0
QuadClass(q) ==
  IF ~Known(q) \/ ~Distinct(q) THEN "no"
  ELSE IF \E j, k \in 1..4 : j # k /\ P(q[j]) = P(q[k]) THEN "no"
  ELSE IF \A T \in Triples(q) : Collinear(T) THEN "no"
  ELSE IF ~Planar(q) THEN "no"
  ELSE IF \E T \in Triples(q) : Collinear(T) THEN "any"
  ELSE IF \E pr \in Pairings(q) : Crossing(pr) THEN "yes" ELSE "no"
\* possible pairs of triangles: along the shorter diagonal
Splits(q) ==
  IF QuadClass(q) = "yes"
  THEN LET pr == CHOOSE x \in Pairings(q) : Crossing(x)
       IN {Split(pr, d) : d \in {x \in pr : \A y \in pr : Len2(x) <= Len2(y)}}
  ELSE UNION {{Split(pr, d) : d \in pr} : pr \in Pairings(q)}
Class(op, e) == IF op = "tet" /\ dim = 2 THEN "no"
                ELSE IF ~need THEN "yes"
                ELSE IF op = "quad" THEN QuadClass(e)
                ELSE IF Known(e) /\ Distinct(e) THEN "yes" ELSE "no"
Size(op) == CASE op = "edge" -> 2 [] op = "tri" -> 3 [] op = "quad" -> 4 [] op = "tet" -> 4
----------------------------------------------------------------------------
Init == /\ ph = "start" /\ dim \in (IF Gen THEN {2} ELSE Dims) /\ need \in (IF Gen THEN {TRUE} ELSE Needs) /\ n = 0
        /\ verts = <<>> /\ calls = <<>> /\ edges = {} /\ tris = {} /\ tets = {} /\ quads = <<>>
Start == /\ ph = "start" /\ ph' = "run" /\ dim' \in Pick(Dims) /\ need' \in Pick(Needs) /\ n' \in Pick(NV)
         /\ UNCHANGED <<verts, calls, edges, tris, tets, quads>>
More == ph = "run" /\ Len(calls) < NC
Log(c) == calls' = Append(calls, c)
\* one or several vertices (possibly none) at once; coordinates are rarely repeated
Fresh == LET F == {p \in Points : \A i \in DOMAIN verts : verts[i] # p} IN IF F = {} THEN Points ELSE F
Where == IF Gen /\ RandomElement(1..8) > 1 THEN Fresh ELSE Points
Vertices == /\ More /\ Len(verts) < n
            /\ \E k \in Pick(KV) : LET m == IF k > n - Len(verts) THEN n - Len(verts) ELSE k IN
                 \E ps \in (IF Gen THEN {[j \in 1..m |-> RandomElement(Where)]} ELSE [1..m -> Points]) :
                   \E one \in Pick(IF m = 1 THEN BOOLEAN ELSE {FALSE}) :
                   /\ verts' = verts \o ps
                   /\ Log([op |-> "v", one |-> one, ps |-> ps, ids |-> [j \in 1..m |-> Len(verts) + j - 1]])
            /\ UNCHANGED <<ph, dim, need, n, edges, tris, tets, quads>>
\* candidates: mostly existing vertices, sometimes unknown ones
Cand == IF Len(verts) = 0 THEN {-1, 0} ELSE IF Gen /\ RandomElement(1..12) > 1 THEN Ids ELSE Ids \cup {-1, Len(verts)}
Rand(S, k) == [j \in 1..k |-> RandomElement(S)]
\* in simulations, prefer distinct vertices
Shuffled(k) == LET R == [i \in Ids |-> RandomElement(1..1000)] IN
               SubSeq(SetToSortSeq(Ids, LAMBDA a, b : R[a] < R[b] \/ (R[a] = R[b] /\ a < b)), 1, k)
Try(op) == IF Len(verts) >= Size(op) /\ RandomElement(1..8) > 1 THEN Shuffled(Size(op)) ELSE Rand(Cand, Size(op))
\* in simulations, prefer good quads
GoodQuad == LET C == {<<Try("quad"), i>> : i \in 1..6} G == {c \in C : QuadClass(c[1]) # "no"}
            IN IF G # {} /\ RandomElement(1..4) > 1 THEN (CHOOSE c \in G : TRUE)[1] ELSE (CHOOSE c \in C : TRUE)[1]
Choice(op) == IF Gen THEN {IF op = "quad" /\ Len(verts) >= 4 THEN GoodQuad ELSE Try(op)} ELSE [1..Size(op) -> Ids \cup {-1, Len(verts)}]
Add(op, es) ==
  /\ edges' = IF op = "edge" /\ need THEN edges \cup {ToSet(es[k]) : k \in DOMAIN es} ELSE edges
  /\ tris' = IF op = "tri" /\ need THEN tris \cup {ToSet(es[k]) : k \in DOMAIN es} ELSE tris
  /\ tets' = IF op = "tet" /\ need THEN tets \cup {ToSet(es[k]) : k \in DOMAIN es} ELSE tets
  /\ quads' = IF op = "quad" /\ need THEN quads \o [k \in DOMAIN es |-> [call |-> Len(calls) + 1, alts |-> SetToSeq({SetToSeq({SetToSeq(t) : t \in s}) : s \in Splits(es[k])})]] ELSE quads
Single(op) == /\ More
              /\ \E e \in Choice(op) : LET c == Class(op, e) IN
                   /\ Log([op |-> op, bulk |-> FALSE, es |-> <<e>>, ok |-> c])
                   /\ IF c = "no" THEN UNCHANGED <<edges, tris, tets, quads>> ELSE Add(op, <<e>>)
              /\ UNCHANGED <<ph, dim, need, n, verts>>
\* several elements at once; a call with an invalid element has no effect (quads are looked at one after the other: only the first may be invalid)
Bulk(op) == /\ More
            /\ \E k \in Pick(KB) : \E es \in (IF Gen THEN {[j \in 1..k |-> CHOOSE e \in Choice(op) : TRUE]} ELSE [1..k -> Choice(op)]) :
                 LET cl == [j \in DOMAIN es |-> Class(op, es[j])]
                     c == IF op = "tet" /\ dim = 2 THEN "no" ELSE IF \E j \in DOMAIN cl : cl[j] = "no" THEN "no" ELSE "yes"
                 IN /\ \A j \in DOMAIN cl : cl[j] # "any"
                    /\ op = "quad" /\ c = "no" => (es # <<>> /\ cl[1] = "no") \/ (\A j \in DOMAIN es : Known(es[j])) = FALSE
                    /\ Log([op |-> op, bulk |-> TRUE, es |-> es, ok |-> c])
                    /\ IF c = "no" THEN UNCHANGED <<edges, tris, tets, quads>> ELSE Add(op, es)
            /\ UNCHANGED <<ph, dim, need, n, verts>>
----------------------------------------------------------------------------
\* everything that is implied
AllTris == tris \cup UNION {{t \ {x} : x \in t} : t \in tets}
AllEdges == edges \cup UNION {{t \ {x} : x \in t} : t \in AllTris}
Emit == /\ ph = "run" /\ Gen /\ Len(calls) = NC /\ ph' = "end"
        /\ PrintT("@@" \o ToJson([dim |-> dim, need |-> need, verts |-> verts, calls |-> calls,
             tets |-> SetToSeq({SetToSeq(t) : t \in tets}), tris |-> SetToSeq({SetToSeq(t) : t \in AllTris}), edges |-> SetToSeq({SetToSeq(t) : t \in AllEdges}), quads |-> quads]))
        /\ UNCHANGED <<dim, need, n, verts, calls, edges, tris, tets, quads>>
Act(o) == IF o = "v" THEN Vertices ELSE Single(o) \/ Bulk(o)
\* in simulations vertices come early
Weighted == IF Len(verts) < n /\ RandomElement(1..2) = 1 THEN "v" ELSE RandomElement(Ops)
Next == Start \/ Emit \/ (IF Gen THEN (ph = "run" /\ \E o \in {Weighted} : IF o = "v" /\ Len(verts) = n THEN Single("edge") ELSE Act(o)) ELSE \E o \in Ops : Act(o))
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* ids are consecutive, in the order of definition
IdInv == LET all == FoldLeft(LAMBDA s, c : IF c.op = "v" THEN s \o c.ids ELSE s, <<>>, calls) IN all = [k \in 1..Len(verts) |-> k - 1]
\* elements consist of the right number of known vertices
ShapeInv == /\ \A e \in AllEdges : e \subseteq Ids /\ Cardinality(e) = 2
            /\ \A t \in AllTris : t \subseteq Ids /\ Cardinality(t) = 3
            /\ \A t \in tets : t \subseteq Ids /\ Cardinality(t) = 4 /\ dim = 3
\* the elements are exactly those of the accepted calls, whatever their order
Accepted(o) == UNION {{ToSet(calls[i].es[k]) : k \in DOMAIN calls[i].es} : i \in {j \in DOMAIN calls : calls[j].op = o /\ calls[j].ok # "no"}}
ExactInv == need => edges = Accepted("edge") /\ tris = Accepted("tri") /\ tets = Accepted("tet")
NoneInv == ~need => edges = {} /\ tris = {} /\ tets = {} /\ quads = <<>>
\* a quad becomes two triangles which share a diagonal
SplitInv == \A k \in DOMAIN quads : quads[k].alts # <<>> /\ \A a \in DOMAIN quads[k].alts :
              LET s == quads[k].alts[a] IN Len(s) = 2 /\ Cardinality(ToSet(s[1]) \cap ToSet(s[2])) = 2 /\ Cardinality(ToSet(s[1]) \cup ToSet(s[2])) = 4
\* the class of a quad does not depend on the order of its vertices
Perms == {p \in [1..4 -> 1..4] : \A i, j \in 1..4 : i # j => p[i] # p[j]}
OrderInv == \A i \in DOMAIN calls : calls[i].op = "quad" => \A k \in DOMAIN calls[i].es :
              LET q == calls[i].es[k] IN Known(q) => \A p \in Perms : QuadClass([j \in 1..4 |-> q[p[j]]]) = QuadClass(q)
============================================================================
