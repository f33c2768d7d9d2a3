------------------------------ MODULE Mapping ------------------------------
(***************************************************************************)
(* Which source vertices, with which weights, determine the value of a       *)
(* target vertex of a projection-based mapping (nearest neighbor, nearest    *)
(* projection, linear cell interpolation, nearest along an axis).            *)
(*                                                                           *)
(* A mesh is built vertex by vertex and element by element (edges,           *)
(* triangles, tetrahedra as sets of vertices; an element implies its faces), *)
(* then every target gets its match: a set of possible interpolations, more  *)
(* than one only if distances tie.  Points are integer, 2D points have z=0,  *)
(* weights and squared distances are fractions.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Gen,           \* TRUE: print behaviours (simulation)
          Dims, Modes,   \* {2,3}, {"nn","np","cell"}
          Shapes,        \* {"soup","flat","grid"}
          L,             \* lattice of the soup: 0..L
          NS, NE, NT     \* sets of numbers of vertices, elements, targets

VARIABLES dim, mode, shape, n, src, elems, tgt, telems, ph
vars == <<dim, mode, shape, n, src, elems, tgt, telems, ph>>

Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S

----------------------------------------------------------------------------
(* Geometry *)
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Sq(a) == Dot(a, a)
Zero == <<0, 0, 0>>

(* a candidate: vertices, numerators of their weights, denominator, squared distance dn/dd *)
VertexC(p, i) == [ids |-> <<i>>, num |-> <<1>>, den |-> 1, dn |-> Sq(Sub(p, src[i])), dd |-> 1]
EdgeC(p, i, j) ==
  LET a == src[i]  d == Sub(src[j], a)  v == Sub(p, a)  e == Sq(d)  t == Dot(v, d)
  IN [ids |-> <<i, j>>, num |-> <<e - t, t>>, den |-> e, dn |-> Sq(v) * e - t * t, dd |-> e]
TriC(p, i, j, k) ==
  LET a == src[i]  b == Sub(src[j], a)  c == Sub(src[k], a)  v == Sub(p, a)
      nn == Cross(b, c)  e == Sq(nn)
      wc == Dot(Cross(b, v), nn)  wb == Dot(Cross(v, c), nn)  h == Dot(v, nn)
  IN [ids |-> <<i, j, k>>, num |-> <<e - wb - wc, wb, wc>>, den |-> e, dn |-> h * h, dd |-> e]
TetC(p, i, j, k, l) ==
  LET a == src[i]  b == Sub(src[j], a)  c == Sub(src[k], a)  d == Sub(src[l], a)  v == Sub(p, a)
      D == Dot(Cross(b, c), d)  s == IF D < 0 THEN -1 ELSE 1
      wb == s * Dot(Cross(v, c), d)  wc == s * Dot(Cross(b, v), d)  wd == s * Dot(Cross(b, c), v)
  IN [ids |-> <<i, j, k, l>>, num |-> <<s * D - wb - wc - wd, wb, wc, wd>>, den |-> s * D, dn |-> 0, dd |-> 1]

Sorted(S) == SetToSortSeq(S, <)
Faces(E, k) == UNION {{f \in SUBSET e : Cardinality(f) = k} : e \in {x \in E : Cardinality(x) >= k}}
Edges == Faces(elems, 2)
Tris  == Faces(elems, 3)
Tets  == Faces(elems, 4)

Inside(c) == \A k \in DOMAIN c.num : c.num[k] >= 0
Closer(c, d) == c.dn * d.dd < d.dn * c.dd
Best(C) == {c \in C : \A d \in C : ~ Closer(d, c)}

Vertices(p) == Best({VertexC(p, i) : i \in DOMAIN src})
EdgeSet(p) == {c \in {LET s == Sorted(e) IN EdgeC(p, s[1], s[2]) : e \in Edges} : Inside(c)}
TriSet(p)  == {c \in {LET s == Sorted(e) IN TriC(p, s[1], s[2], s[3]) : e \in Tris} : Inside(c)}
TetSet(p)  == {c \in {LET s == Sorted(e) IN TetC(p, s[1], s[2], s[3], s[4]) : e \in Tets} : Inside(c)}

(* the best of C unless something in V is closer; with a tie both are possible *)
Prefer(C, V, fallback) ==
  IF C = {} THEN fallback
  ELSE LET c == CHOOSE x \in Best(C) : TRUE  v == CHOOSE x \in V : TRUE
       IN IF Closer(v, c) THEN fallback ELSE IF Closer(c, v) THEN Best(C) ELSE Best(C) \cup fallback

EdgeStage(p) == Prefer(EdgeSet(p), Vertices(p), Vertices(p))
(* a triangle that contains the projection is preferred to edges unless a vertex is closer *)
Projection(p) ==
  IF dim = 2 THEN EdgeStage(p) ELSE Prefer(TriSet(p), Vertices(p), EdgeStage(p))
Cell(p) ==
  LET C == IF dim = 2 THEN TriSet(p) ELSE TetSet(p)
  IN IF C # {} THEN C ELSE Projection(p)

(* nearest in the projection onto the axis x *)
AxisC(p, i) == [VertexC(p, i) EXCEPT !.dn = (p[1] - src[i][1]) * (p[1] - src[i][1])]
Axis(p) == Best({AxisC(p, i) : i \in DOMAIN src})

Match(p) ==
  CASE mode = "nn"   -> Vertices(p)
    [] mode = "axis" -> Axis(p)
    [] mode = "np"   -> Projection(p)
    [] mode = "cell" -> Cell(p)

Proper(e) ==
  LET s == Sorted(e)
  IN CASE Len(s) = 2 -> src[s[1]] # src[s[2]]
       [] Len(s) = 3 -> Cross(Sub(src[s[2]], src[s[1]]), Sub(src[s[3]], src[s[1]])) # Zero
       [] Len(s) = 4 -> Dot(Cross(Sub(src[s[2]], src[s[1]]), Sub(src[s[3]], src[s[1]])), Sub(src[s[4]], src[s[1]])) # 0

----------------------------------------------------------------------------
(* Transitions *)
Init == /\ dim \in (IF Gen THEN {2} ELSE Dims) /\ mode \in (IF Gen THEN {"nn"} ELSE Modes) /\ shape \in (IF Gen THEN {"soup"} ELSE Shapes)
        /\ n \in (IF Gen THEN {[s |-> 0, e |-> 0, t |-> 0]} ELSE [s : NS, e : NE, t : NT])
        /\ src = <<>> /\ elems = {} /\ tgt = <<>> /\ telems = {} /\ ph = (IF Gen THEN "mode" ELSE "src")

Choose == /\ ph = "mode" /\ ph' = "src"
          /\ mode' \in Pick(Modes)
          /\ dim' \in (IF mode' = "axis" THEN {3} ELSE Pick(Dims))
          /\ shape' \in (IF mode' = "axis" THEN {"soup"} ELSE Pick(Shapes))
          /\ n' \in Pick([s : NS, e : NE, t : NT])
          /\ UNCHANGED <<src, elems, tgt, telems>>

Lattice(lo, hi) == {<<x, y, z>> : x \in lo..hi, y \in lo..hi, z \in (IF dim = 2 THEN {0} ELSE lo..hi)}

AddVertex ==
  /\ ph = "src" /\ shape # "grid" /\ Len(src) < n.s
  /\ \E p \in Pick({q \in Lattice(0, L) : (shape = "flat" => q[3] = 0) /\ \A i \in DOMAIN src : (src[i] # q /\ (mode = "axis" => src[i][1] # q[1]))}) : src' = Append(src, p)
  /\ ph' = IF Len(src) + 1 = n.s THEN "elem" ELSE "src"
  /\ UNCHANGED <<dim, mode, shape, n, elems, tgt, telems>>

(* nearest neighbors do not need elements, they may be there for the integrals *)
Plain == mode = "axis" \/ (mode = "nn" /\ ~ Gen)
MaxSize == CASE mode = "nn" -> dim [] mode = "np" /\ dim = 2 -> 2 [] mode = "np" /\ dim = 3 -> 3 [] mode = "cell" /\ dim = 2 -> 3 [] OTHER -> 4
(* the candidates that the implementation looks at: all if there are at most four triangles *)
Few(E) == Cardinality(Faces(E, 3)) <= 4
AddElement ==
  /\ ph = "elem" /\ ~ Plain /\ Cardinality(elems) < n.e
  /\ LET S == {e \in SUBSET DOMAIN src : Cardinality(e) \in 2..MaxSize /\ e \notin elems /\ Proper(e) /\ Few(elems \cup {e})}
     IN S # {} /\ \E e \in Pick(S) : elems' = elems \cup {e}
  /\ UNCHANGED <<dim, mode, shape, n, src, tgt, telems, ph>>
EndElements ==
  /\ ph = "elem" /\ (Plain \/ Cardinality(elems) = n.e
       \/ {e \in SUBSET DOMAIN src : Cardinality(e) \in 2..MaxSize /\ e \notin elems /\ Proper(e) /\ Few(elems \cup {e})} = {})
  /\ ph' = "tgt" /\ UNCHANGED <<dim, mode, shape, n, src, elems, tgt, telems>>

(* a regular grid with a chosen diagonal per cell, in 3D in the plane z = 0 (np) or cubes of tetrahedra (cell) *)
Step == 2 + (n.s % 2)
Nx == 1 + (n.s % 3)
Ny == 1 + (n.e % 3)
GridPoint(i, j, k) == <<Step * i, Step * j, Step * k>>
GridId(i, j, k) == 1 + i + (Nx + 1) * (j + (Ny + 1) * k)
Solid == dim = 3 /\ mode = "cell"
MakeGrid ==
  /\ ph = "src" /\ shape = "grid"
  /\ LET K == IF Solid THEN 1 ELSE 0
         N == (Nx + 1) * (Ny + 1) * (K + 1)
     IN src' = [m \in 1..N |-> LET q == m - 1 IN GridPoint(q % (Nx + 1), (q \div (Nx + 1)) % (Ny + 1), q \div ((Nx + 1) * (Ny + 1)))]
  /\ \E diag \in (IF Solid THEN {<<>>} ELSE Pick([(0..Nx-1) \X (0..Ny-1) -> BOOLEAN])) :
       elems' = CASE mode = "nn" -> {}
         [] mode = "np" /\ dim = 2 -> {{GridId(i, j, 0), GridId(i + 1, j, 0)} : i \in 0..Nx-1, j \in 0..Ny}
         [] Solid -> UNION {LET c(x, y, z) == GridId(i + x, j + y, z) IN
              {{c(0,0,0), c(1,0,0), c(1,1,0), c(1,1,1)}, {c(0,0,0), c(1,0,0), c(1,0,1), c(1,1,1)}, {c(0,0,0), c(0,1,0), c(1,1,0), c(1,1,1)},
               {c(0,0,0), c(0,1,0), c(0,1,1), c(1,1,1)}, {c(0,0,0), c(0,0,1), c(1,0,1), c(1,1,1)}, {c(0,0,0), c(0,0,1), c(0,1,1), c(1,1,1)}} : i \in 0..Nx-1, j \in 0..Ny-1}
         [] OTHER -> UNION {LET a == GridId(i, j, 0)  b == GridId(i + 1, j, 0)  c == GridId(i, j + 1, 0)  d == GridId(i + 1, j + 1, 0)
                            IN IF diag[<<i, j>>] THEN {{a, b, d}, {a, c, d}} ELSE {{a, b, c}, {b, c, d}} : i \in 0..Nx-1, j \in 0..Ny-1}
  /\ ph' = "tgt" /\ UNCHANGED <<dim, mode, shape, n, tgt, telems>>

AddTarget ==
  /\ ph = "tgt" /\ Len(tgt) < n.t
  /\ LET S == IF shape = "grid"
              THEN {<<x, y, z>> : x \in (IF Solid THEN 0 ELSE -1)..Step * Nx, y \in (IF Solid THEN 0 ELSE -1)..Step * Ny,
                                  z \in (IF dim = 2 THEN {0} ELSE IF Solid THEN 0..Step ELSE 0..2)}
              ELSE Lattice(-1, L + 1)
     IN \E p \in Pick({q \in S : \A i \in DOMAIN tgt : tgt[i] # q}) : tgt' = Append(tgt, p)
  /\ UNCHANGED <<dim, mode, shape, n, src, elems, telems, ph>>

(* connectivity of the targets, for the scaled constraints *)
TProper(e) ==
  LET s == Sorted(e)
  IN CASE Len(s) = 2 -> TRUE
       [] Len(s) = 3 -> Cross(Sub(tgt[s[2]], tgt[s[1]]), Sub(tgt[s[3]], tgt[s[1]])) # Zero
       [] Len(s) = 4 -> Dot(Cross(Sub(tgt[s[2]], tgt[s[1]]), Sub(tgt[s[3]], tgt[s[1]])), Sub(tgt[s[4]], tgt[s[1]])) # 0
EndTargets ==
  /\ ph = "tgt" /\ Len(tgt) = n.t
  /\ IF Gen /\ mode # "axis"
     THEN LET S == {e \in SUBSET DOMAIN tgt : Cardinality(e) = (IF mode = "cell" THEN dim + 1 ELSE dim) /\ TProper(e)}
          IN telems' = {RandomElement(S) : k \in (IF S = {} THEN {} ELSE 1..2)}
     ELSE telems' = {}
  /\ ph' = "done" /\ UNCHANGED <<dim, mode, shape, n, src, elems, tgt>>

SetSeq(S) == [k \in 1..Cardinality(S) |-> SetToSeq(S)[k]]
Emit == /\ ph = "done" /\ Gen
        /\ PrintT("@@" \o ToJson([dim |-> dim, mode |-> mode, shape |-> shape, src |-> src, elems |-> SetSeq({Sorted(e) : e \in elems}), tgt |-> tgt,
                                  telems |-> SetSeq({Sorted(e) : e \in telems}),
                                  match |-> [j \in DOMAIN tgt |-> SetSeq({[ids |-> c.ids, num |-> c.num, den |-> c.den] : c \in Match(tgt[j])})]]))
        /\ ph' = "end" /\ UNCHANGED <<dim, mode, shape, n, src, elems, tgt, telems>>

Next == Choose \/ AddVertex \/ MakeGrid \/ AddElement \/ EndElements \/ AddTarget \/ EndTargets \/ Emit
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties, for every target of every mesh *)
Sum(s) == FoldSeq(LAMBDA x, acc : x + acc, 0, s)
Foot(c) == [d \in 1..3 |-> Sum([k \in DOMAIN c.ids |-> c.num[k] * src[c.ids[k]][d]])]     \* times den
All(P(_, _)) == ph = "done" => \A j \in DOMAIN tgt : \A c \in Match(tgt[j]) : P(tgt[j], c)

SomeInv  == ph = "done" => \A j \in DOMAIN tgt : Match(tgt[j]) # {}
(* constant fields are reproduced and no value is outside the range of the source values; sums of conservative data are kept *)
UnityInv == All(LAMBDA p, c : c.den > 0 /\ Sum(c.num) = c.den /\ Inside(c))
(* linear fields are evaluated at the foot, whose distance is the distance of the match *)
FootInv  == mode # "axis" => All(LAMBDA p, c : Sq(Sub([d \in 1..3 |-> c.den * p[d]], Foot(c))) * c.dd = c.dn * c.den * c.den)
(* never farther than the nearest vertex *)
NearInv  == mode \in {"nn", "np"} => All(LAMBDA p, c : \A i \in DOMAIN src : ~ Closer(VertexC(p, i), c))
AxisInv == mode = "axis" => All(LAMBDA p, c : \A i \in DOMAIN src : ~ Closer(AxisC(p, i), c))
(* the closest point of a segment *)
SegmentC(p, i, j) == LET c == EdgeC(p, i, j) IN IF Inside(c) THEN c ELSE CHOOSE v \in Best({VertexC(p, i), VertexC(p, j)}) : TRUE
(* a 2D mesh, or a flat one in 3D: nothing is closer than the match *)
ClosestInv == mode = "np" /\ (dim = 2 \/ shape # "soup") =>
  All(LAMBDA p, c : (\A e \in Edges : LET s == Sorted(e) IN ~ Closer(SegmentC(p, s[1], s[2]), c)) /\ (dim = 3 => \A d \in TriSet(p) : ~ Closer(d, c)))
(* always: no edge or triangle is closer, unless the match is a triangle (then an edge may be) *)
StageInv == mode = "np" => All(LAMBDA p, c : Len(c.ids) # 3 => \A e \in Edges : LET s == Sorted(e) IN ~ Closer(SegmentC(p, s[1], s[2]), c))
(* inside of a cell, linear fields are exact *)
CellInv == mode = "cell" => All(LAMBDA p, c :
  (IF dim = 2 THEN TriSet(p) ELSE TetSet(p)) # {} => \A d \in 1..3 : Foot(c)[d] = c.den * p[d])
(* a target on a source vertex takes its value *)
VertexInv == mode # "axis" => All(LAMBDA p, c : \A i \in DOMAIN src : src[i] = p => \A k \in DOMAIN c.ids : c.ids[k] # i => c.num[k] = 0)
=============================================================================
