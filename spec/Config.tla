------------------------------- MODULE Config -------------------------------
(* Which configurations are accepted.                                         *)
(*                                                                            *)
(* A configuration is a tree of tags: T is the sequence of its nodes          *)
(* [tag, up, at] in document order, parents before children, up = 0 for the   *)
(* root, `at` the attributes written down.  Schema.tla holds the documented   *)
(* structure; ConfigInput.tla tells of every attribute value in use whether   *)
(* it spells an integer, a float, a vector, and which number (in ten-thousandths). *)
(*                                                                            *)
(* Malformed(T): breaks the documented structure.  Read(T): well formed; rule *)
(* names the rule about names, references, ranges or combinations it breaks,  *)
(* own and start the participants that reject only themselves.  late: accepted when loaded, but some participant cannot get    *)
(* past initialize() and says so.  Verdict(T) puts this together.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Schema, ConfigInput

----------------------------------------------------------------------------
(* trees *)

Has(f, a) == a \in DOMAIN f

Paths(T) == LET RECURSIVE Go(_, _)
                Go(i, acc) == IF i > Len(T) THEN acc
                              ELSE Go(i + 1, Append(acc, IF T[i].up = 0 THEN T[i].tag ELSE acc[T[i].up] \o "/" \o T[i].tag))
            IN Go(1, <<>>)

Space(tag) == IF tag \in DOMAIN Spaces THEN Spaces[tag] ELSE ""  \* the part before the colon
Kids(T, i) == {j \in 1..Len(T) : T[j].up = i}

TypeOk(k, v) == CASE k = "integer" -> Values[v].int [] k = "float" -> Values[v].float
                  [] k = "vector" -> Values[v].vector [] k = "boolean" -> TRUE [] OTHER -> TRUE

Malformed(T) ==
  LET P == Paths(T)
      Node(i) ==
        IF P[i] \notin DOMAIN Tags THEN TRUE
        ELSE LET s == Tags[P[i]].attributes IN
             \/ \E a \in DOMAIN T[i].at : a \notin DOMAIN s
             \/ \E a \in DOMAIN s : ~ s[a].optional /\ a \notin DOMAIN T[i].at
             \/ \E a \in DOMAIN s : a \in DOMAIN T[i].at /\
                  \/ ~ TypeOk(s[a].type, T[i].at[a])
                  \/ s[a].options # {} /\ T[i].at[a] \notin s[a].options
      (* occurrence of tag t below node i *)
      Occurs(i) == \E t \in Below(P[i]) :
                     LET o == Tags[P[i] \o "/" \o t].occurs
                         n == Cardinality({j \in Kids(T, i) : T[j].tag = t})
                         m == Cardinality({j \in Kids(T, i) : Space(T[j].tag) = Space(t)})
                     IN \/ o \in {"1", "0..1"} /\ n > 1
                        \/ o \in {"1", "1..*"} /\ n = 0 /\ (Space(t) = "" \/ m = 0)
  IN \/ T = <<>> \/ P[1] # "precice-configuration"
     \/ \E i \in 1..Len(T) : Node(i)
     \/ \E i \in 1..Len(T) : Occurs(i)

----------------------------------------------------------------------------
(* a well-formed tree, read *)

(* the nodes with a tag, and the value of an attribute, written or default *)
At(T, P, i, a) == IF Has(T[i].at, a) THEN T[i].at[a] ELSE Tags[P[i]].attributes[a].default
Num(v) == Values[v].num
Unit == 10000
Truth == {"1", "yes", "true", "on", "TRUE", "True"}

Implicits == {"coupling-scheme:serial-implicit", "coupling-scheme:parallel-implicit", "coupling-scheme:multi"}
Serials == {"coupling-scheme:serial-explicit", "coupling-scheme:serial-implicit"}
Bis == Serials \union {"coupling-scheme:parallel-explicit", "coupling-scheme:parallel-implicit"}
Kernels == {"mapping:rbf", "mapping:rbf-global-direct", "mapping:rbf-global-iterative", "mapping:rbf-pum-direct"}
InTime == {"mapping:nearest-neighbor", "mapping:rbf", "mapping:rbf-pum-direct", "mapping:coarse-graining"}
Compact == {"basis-function:compact-polynomial-c0", "basis-function:compact-polynomial-c2", "basis-function:compact-polynomial-c4", "basis-function:compact-polynomial-c6", "basis-function:compact-polynomial-c8", "basis-function:compact-tps-c2"}
Scaled == {"scaled-consistent-surface", "scaled-consistent-volume"}
Measures == {"absolute-convergence-measure", "relative-convergence-measure", "residual-relative-convergence-measure", "absolute-or-relative-convergence-measure"}

(* The verdict needs many views of the same tree; they are computed once and  *)
(* handed on as one record.                                                    *)
Read(T) ==
  LET P == Paths(T)
      V(i, a) == At(T, P, i, a)
      B(i, a) == V(i, a) \in Truth
      All == 1..Len(T)
      Tag(t) == {i \in All : T[i].tag = t}
      In(p, t) == {i \in Kids(T, p) : T[i].tag = t}
      Ns(p, s) == {i \in Kids(T, p) : Space(T[i].tag) = s}
      Data == Ns(1, "data")
      Mesh == In(1, "mesh")
      Part == In(1, "participant")
      M2n == Ns(1, "m2n")
      Sch == Ns(1, "coupling-scheme")
      Names(S) == {V(i, "name") : i \in S}
      Uses == {<<V(T[u].up, "name"), V(u, "name")>> : u \in Tag("use-data")}
      Dim(m) == V(CHOOSE i \in Mesh : V(i, "name") = m, "dimensions")
      Deg(d) == Num(V(CHOOSE i \in Data : V(i, "name") = d, "waveform-degree"))
      DataKind(d) == T[CHOOSE i \in Data : V(i, "name") = d].tag
      Pro(p) == {V(i, "name") : i \in In(p, "provide-mesh")}
      Rec(p) == {V(i, "name") : i \in In(p, "receive-mesh")}
      Api(p) == {V(i, "name") : i \in {r \in In(p, "receive-mesh") : B(r, "api-access") \/ B(r, "direct-access")}}
      Wr(p) == {<<V(i, "mesh"), V(i, "name")>> : i \in In(p, "write-data")}
      Rd(p) == {<<V(i, "mesh"), V(i, "name")>> : i \in In(p, "read-data")}
      Twice(S, Key(_)) == \E i, j \in S : i # j /\ Key(i) = Key(j)
      Who(n) == CHOOSE p \in Part : V(p, "name") = n
      Experimental == B(1, "experimental")
      Remeshing == B(1, "allow-remeshing")

      (* ---- data, meshes ---- *)
      Bad_root == Remeshing /\ ~ Experimental
      Bad_profiling == \E i \in In(1, "profiling") : Num(V(i, "flush-every")) < 0
      Lows == {<<"lower-bound", "upper-bound">>, <<"lower-bound-x", "upper-bound-x">>, <<"lower-bound-y", "upper-bound-y">>, <<"lower-bound-z", "upper-bound-z">>}
      Bad_data ==
        \/ LET K(i) == V(i, "name") IN Twice(Data, K)
        \/ \E i \in Data : Num(V(i, "waveform-degree")) < 0
        \/ \E i \in Data : \E b \in Lows : b[1] \in DOMAIN Tags[P[i]].attributes /\ Num(V(i, b[1])) > Num(V(i, b[2]))
      Bad_mesh ==
        \/ LET K(i) == V(i, "name") IN Twice(Mesh, K)
        \/ \E m \in Mesh : LET K(i) == V(i, "name") IN Twice(In(m, "use-data"), K)
        \/ \E u \in Tag("use-data") : V(u, "name") \notin Names(Data)

      (* ---- participants ---- *)
      Bad_uses(p) ==
        LET S == In(p, "provide-mesh") \union In(p, "receive-mesh") K(i) == V(i, "name") IN
        \/ Twice(S, K)
        \/ \E i \in S : V(i, "name") \notin Names(Mesh)
        \/ \E i \in In(p, "receive-mesh") : V(i, "from") \in {"", V(p, "name")} \/ Num(V(i, "safety-factor")) < 0
      Bad_access(p) ==
        LET S == In(p, "write-data") \union In(p, "read-data") K(i) == <<V(i, "mesh"), V(i, "name")>> IN
        \/ Twice(S, K)
        \/ \E i \in S : <<V(i, "mesh"), V(i, "name")>> \notin Uses
        \/ \E i \in In(p, "write-data") : Remeshing /\ V(i, "mesh") \in Api(p) \ Pro(p)

      (* ---- mappings ---- *)
      Maps(p) == Ns(p, "mapping")
      Opt(i, a) == a \in DOMAIN Tags[P[i]].attributes
      Read_(m) == V(m, "direction") = "read"
      Bad_map(p, m) ==
        LET from == V(m, "from") to == V(m, "to") con == V(m, "constraint") t == T[m].tag
            jit == from = "" \/ to = ""
        IN
        \/ from = "" /\ to = ""
        \/ to = "" /\ ~ (Read_(m) /\ con = "consistent")
        \/ from = "" /\ ~ (~ Read_(m) /\ con = "conservative")
        \/ {from, to} \ (Names(Mesh) \union {""}) # {}
        \/ jit /\ t \notin InTime
        \/ t \in {"mapping:axial-geometric-multiscale", "mapping:radial-geometric-multiscale", "mapping:coarse-graining"} /\ ~ Experimental
        \/ t \in {"mapping:nearest-neighbor-gradient", "mapping:axial-geometric-multiscale", "mapping:radial-geometric-multiscale"} /\ con = "conservative"
        \/ ~ jit /\ from \in Names(Mesh) /\ to \in Names(Mesh) /\ Dim(from) # Dim(to)
        \/ Read_(m) /\ (from \notin Rec(p) \/ to \notin Pro(p) \union {""})
        \/ ~ Read_(m) /\ (to \notin Rec(p) \/ from \notin Pro(p) \union {""})
        \/ LET bs == Ns(m, "basis-function") IN
             t \in Kernels /\ Cardinality(bs) # 1
        \/ \E b \in Ns(m, "basis-function") : T[b].tag = "basis-function:gaussian" /\
             LET sp == V(b, "shape-parameter") sr == V(b, "support-radius") IN
             (sp \in NotFinite) = (sr \in NotFinite)
        (* the parameters of the method; the build judged has no PETSc, Ginkgo or Kokkos *)
        \/ t = "mapping:rbf-global-iterative"
        \/ \E x \in Ns(m, "executor") : T[x].tag # "executor:cpu"
        \/ \E b \in Ns(m, "basis-function") : T[b].tag \in Compact /\ Num(V(b, "support-radius")) <= 0
        \/ \E b \in Ns(m, "basis-function") : T[b].tag \in {"basis-function:gaussian", "basis-function:inverse-multiquadrics"} /\
             Has(T[b].at, "shape-parameter") /\ Num(V(b, "shape-parameter")) <= 0
        \/ \E b \in Ns(m, "basis-function") : T[b].tag = "basis-function:gaussian" /\ Has(T[b].at, "support-radius") /\ Num(V(b, "support-radius")) <= 0
        \/ t = "mapping:rbf-pum-direct" /\ (Num(V(m, "vertices-per-cluster")) <= 0 \/ Num(V(m, "relative-overlap")) < 0 \/ Num(V(m, "relative-overlap")) >= Unit)
        \/ t = "mapping:coarse-graining" /\ Num(V(m, "radius")) <= 0
        \/ t = "mapping:linear-cell-interpolation" /\ con = "scaled-consistent-surface"
        \/ t = "mapping:nearest-projection" /\ con = "scaled-consistent-volume"
        (* data the mapping serves *)
        \/ ~ jit /\ Read_(m) /\ ~ \E x \in Rd(p) : x[1] = to /\ <<from, x[2]>> \in Uses
        \/ ~ jit /\ ~ Read_(m) /\ ~ \E x \in Wr(p) : x[1] = from /\ <<to, x[2]>> \in Uses
        \/ jit /\ Read_(m) /\ ~ \E x \in Rd(p) : x[1] = from
        \/ jit /\ ~ Read_(m) /\ ~ \E x \in Wr(p) : x[1] = to
      Bad_maps(p) ==
        \/ \E m \in Maps(p) : Bad_map(p, m)
        \/ \E m, n \in Maps(p) : m # n /\ V(m, "to") = V(n, "to") /\
             \/ V(m, "from") = V(n, "from")
             \/ ~ Read_(m) /\ ~ Read_(n) /\ (V(m, "from") = "" \/ V(n, "from") = "")
             \/ /\ V(m, "to") # ""
                /\ \E d \in Names(Data) : <<V(m, "from"), d>> \in Uses /\ <<V(n, "from"), d>> \in Uses
                                          /\ d \in {x[2] : x \in IF Read_(m) THEN Rd(p) ELSE Wr(p)}

      (* ---- actions and watchers ---- *)
      Bad_actions(p) ==
        \E a \in Ns(p, "action") :
          \/ V(a, "mesh") \notin Pro(p) \union Rec(p)
          \/ \E d \in In(a, "target-data") \union In(a, "source-data") : <<V(a, "mesh"), V(d, "name")>> \notin Uses
          \/ T[a].tag = "action:summation" /\ \E d \in In(a, "target-data"), e \in In(a, "source-data") : DataKind(V(d, "name")) # DataKind(V(e, "name"))
          \/ T[a].tag = "action:python"     \* the build judged has no Python
      Bad_watch(p) ==
        \/ \E w \in In(p, "watch-point") : V(w, "mesh") \notin Pro(p) \/ Components(V(w, "coordinate")) # Num(Dim(V(w, "mesh"))) \div Unit
        \/ \E w \in In(p, "watch-integral") : V(w, "mesh") \notin Pro(p)

      (* ---- connections ---- *)
      Linked(a, b) == \E i \in M2n : {V(i, "acceptor"), V(i, "connector")} = {a, b}
      Bad_m2n ==
        \/ \E i, j \in M2n : i # j /\ {V(i, "acceptor"), V(i, "connector")} = {V(j, "acceptor"), V(j, "connector")}
        \/ \E i \in M2n : {V(i, "acceptor"), V(i, "connector")} \ Names(Part) # {} \/ V(i, "acceptor") = V(i, "connector")
        \/ \E i \in M2n : T[i].tag # "m2n:sockets"   \* the build judged has no MPI
        \/ \E i \in M2n : Opt(i, "port") /\ (Num(V(i, "port")) < 0 \/ Num(V(i, "port")) > 65535 * Unit)
        \/ \E i \in M2n : B(i, "use-two-level-initialization")     \* serial participants, or contradicts gather-scatter
      Bad_from == \E r \in Tag("receive-mesh") :
                    \/ V(r, "from") \notin Names(Part)
                    \/ ~ Linked(V(r, "from"), V(T[r].up, "name"))
                    \/ V(r, "name") \notin Pro(Who(V(r, "from")))

      (* ---- coupling schemes ---- *)
      Kind(s) == T[s].tag
      Members(s) == IF Kind(s) = "coupling-scheme:multi" THEN {V(i, "name") : i \in In(s, "participant")}
                    ELSE UNION {{V(i, "first"), V(i, "second")} : i \in In(s, "participants")}
      First(s) == V(CHOOSE i \in In(s, "participants") : TRUE, "first")
      Second(s) == V(CHOOSE i \in In(s, "participants") : TRUE, "second")
      Controller(s) == V(CHOOSE i \in In(s, "participant") : B(i, "control"), "name")
      Ex(s) == In(s, "exchange")
      Only(s, t, a, d) == IF In(s, t) = {} THEN d ELSE Num(V(CHOOSE i \in In(s, t) : TRUE, a))
      MaxIt(s) == Only(s, "max-iterations", "value", 0)
      MinIt(s) == Only(s, "min-iterations", "value", 0)
      Acc(s) == Ns(s, "acceleration")
      AccData(s) == UNION {In(a, "data") : a \in Acc(s)}
      Msr(s) == {i \in Kids(T, s) : T[i].tag \in Measures}
      UsesMesh(n, m) == n \in Names(Part) /\ m \in Pro(Who(n)) \union Rec(Who(n))
      (* who evaluates convergence and acceleration *)
      Judge(s) == IF Kind(s) = "coupling-scheme:multi" THEN Controller(s) ELSE Second(s)
      Exchanged(s, n, m, d) == \E e \in Ex(s) : V(e, "mesh") = m /\ V(e, "data") = d /\ n \in {V(e, "from"), V(e, "to")}
      Bad_members(s) ==
        IF Kind(s) = "coupling-scheme:multi"
        THEN \/ Cardinality(Members(s)) # Cardinality(In(s, "participant"))
             \/ Cardinality({i \in In(s, "participant") : B(i, "control")}) # 1
             \/ Members(s) \ Names(Part) # {}
        ELSE First(s) = Second(s) \/ Members(s) \ Names(Part) # {}
             \/ ~ Linked(First(s), Second(s))
      Bad_limits(s) ==
        \/ In(s, "max-time") = {} /\ In(s, "max-time-windows") = {}
        \/ \E i \in In(s, "max-time") \union In(s, "max-time-windows") \union In(s, "max-iterations") \union In(s, "min-iterations") : Num(V(i, "value")) <= 0
        \/ \E i \in In(s, "time-window-size") : (~ Opt(i, "method") \/ V(i, "method") = "fixed") /\ Num(V(i, "value")) <= 0
        \/ Kind(s) \in Implicits /\ MaxIt(s) > 0 /\ MinIt(s) > MaxIt(s)
        \/ Kind(s) \in Implicits /\ In(s, "max-iterations") = {} /\ Msr(s) = {}
      Bad_exchange(s, e) ==
        LET m == V(e, "mesh") d == V(e, "data") f == V(e, "from") t == V(e, "to") IN
        \/ <<m, d>> \notin Uses \/ f = t \/ {f, t} \ Members(s) # {}
        \/ ~ UsesMesh(f, m) \/ ~ UsesMesh(t, m) \/ ~ Linked(f, t)
        \/ Kind(s) \in Bis /\ B(e, "initialize") /\ m \in Api(Who(f))
        (* degree and substeps have to fit where the receiver reads the data *)
        \/ \E x \in Rd(Who(t)) : x[2] = d /\ Kind(s) \in Bis /\ IF B(e, "substeps") THEN Deg(d) = 0 ELSE Deg(d) >= 2 * Unit
      Bad_exchanges(s) ==
        \/ \E e \in Ex(s) : Bad_exchange(s, e)
        \/ \E e, g \in Ex(s) : e # g /\ V(e, "mesh") = V(g, "mesh") /\ V(e, "data") = V(g, "data") /\
             \/ V(e, "to") = V(g, "to")                                    \* received twice
             \/ V(e, "from") = V(g, "to") \/ V(e, "to") = V(g, "from")     \* sent and received
             \/ V(e, "from") = V(g, "from") /\ (B(e, "substeps") # B(g, "substeps") \/ B(e, "initialize") # B(g, "initialize"))
        \/ Kind(s) \in Implicits /\ \E n \in Members(s) : ~ \E e \in Ex(s) : V(e, "from") = n
      Bad_measure(s, i) ==
        LET t == T[i].tag
            rel == IF t = "absolute-or-relative-convergence-measure" THEN {Num(V(i, "rel-limit"))}
                   ELSE IF t = "absolute-convergence-measure" THEN {} ELSE {Num(V(i, "limit"))}
            abs == IF t = "absolute-or-relative-convergence-measure" THEN {Num(V(i, "abs-limit"))}
                   ELSE IF t = "absolute-convergence-measure" THEN {Num(V(i, "limit"))} ELSE {}
        IN \/ \E l \in rel : l <= 0 \/ l > Unit
           \/ \E l \in abs : l <= 0
           \/ <<V(i, "mesh"), V(i, "data")>> \notin Uses
           \/ ~ UsesMesh(Judge(s), V(i, "mesh"))
           \/ ~ Exchanged(s, Judge(s), V(i, "mesh"), V(i, "data"))
      Bad_acceleration(s) ==
        \/ Cardinality(Acc(s)) > 1
        \/ \E a \in Acc(s) :
             \/ T[a].tag = "acceleration:IQN-IMVJ"     \* the build judged has no MPI
             \/ \E i \in In(a, "relaxation") \union In(a, "initial-relaxation") : Num(V(i, "value")) <= 0 \/ Num(V(i, "value")) > Unit
             \/ \E i \in In(a, "max-used-iterations") : Num(V(i, "value")) <= 0
             \/ \E i \in In(a, "time-windows-reused") : Num(V(i, "value")) < 0
             \/ LET K(i) == <<V(i, "mesh"), V(i, "name")>> IN Twice(In(a, "data"), K)
             \/ \E i \in In(a, "data") :
                  \/ <<V(i, "mesh"), V(i, "name")>> \notin Uses
                  \/ ~ UsesMesh(Judge(s), V(i, "mesh"))
                  \/ ~ Exchanged(s, Judge(s), V(i, "mesh"), V(i, "name"))
                  \/ Kind(s) = "coupling-scheme:serial-implicit" /\ ~ \E e \in Ex(s) : V(e, "mesh") = V(i, "mesh") /\ V(e, "data") = V(i, "name") /\ V(e, "from") = Second(s)
      Bad_scheme(s) == \/ Bad_members(s) \/ Bad_limits(s)
                       \/ Bad_exchanges(s)
                       \/ \E i \in Msr(s) : Bad_measure(s, i)
                       \/ Bad_acceleration(s)
                       \/ Remeshing /\ Kind(s) \in Serials \union {"coupling-scheme:multi"}
      Bad_schemes ==
        \/ \E s \in Sch : Bad_scheme(s)
        \/ \E s, r \in Sch : s # r /\ Members(s) \intersect Members(r) # {} /\
             (Remeshing \/ {Kind(s), Kind(r)} \subseteq Implicits)
      Alone(p) == \A s \in Sch : V(p, "name") \notin Members(s)

      (* ---- what only shows up when the participants start ---- *)
      Filled(n, m, d) == LET p == Who(n) IN
                           \/ <<m, d>> \in Wr(p)
                           \/ \E k \in Maps(p) : ~ Read_(k) /\ V(k, "to") = m /\ <<V(k, "from"), d>> \in Wr(p)
      Unfilled == \E s \in Sch : \E e \in Ex(s) : ~ Filled(V(e, "from"), V(e, "mesh"), V(e, "data"))

      (* named as in the order of evaluation: later rules may rely on earlier ones *)
      Rules ==
        IF Bad_root THEN "root" ELSE IF Bad_profiling THEN "profiling" ELSE IF Bad_data THEN "data" ELSE IF Bad_mesh THEN "mesh"
        ELSE IF LET K(i) == V(i, "name") IN Twice(Part, K) THEN "participants"
        ELSE IF \E p \in Part : Bad_uses(p) THEN "meshes of participants"
        ELSE IF \E p \in Part : Bad_access(p) THEN "data of participants"
        ELSE IF \E p \in Part : Bad_maps(p) THEN "mappings"
        ELSE IF \E p \in Part : Bad_actions(p) THEN "actions"
        ELSE IF Bad_m2n THEN "m2n" ELSE IF Bad_from THEN "receive-mesh from"
        ELSE IF \E s \in Sch : Bad_members(s) THEN "scheme members"
        ELSE IF \E s \in Sch : Bad_limits(s) THEN "scheme limits"
        ELSE IF \E s \in Sch : Bad_exchanges(s) THEN "exchanges"
        ELSE IF \E s \in Sch : \E i \in Msr(s) : Bad_measure(s, i) THEN "measures"
        ELSE IF \E s \in Sch : Bad_acceleration(s) THEN "acceleration"
        ELSE IF Bad_schemes THEN "schemes" ELSE ""
      Own == {V(p, "name") : p \in {q \in Part : Bad_watch(q)}}
      Start == {V(p, "name") : p \in {q \in Part : Alone(q)}}
      (* data d of mesh m gets values at participant p *)
      Arrives(n, m, d) == \E s \in Sch : \E e \in Ex(s) : V(e, "to") = n /\ V(e, "mesh") = m /\ V(e, "data") = d
      Sourced(p, m, d) == \/ <<m, d>> \in Wr(p) \/ Arrives(V(p, "name"), m, d)
                          \/ \E k \in Maps(p) : V(k, "to") = m /\ IF Read_(k) THEN Arrives(V(p, "name"), V(k, "from"), d) ELSE <<V(k, "from"), d>> \in Wr(p)
      (* coarse graining exists for just-in-time mappings only *)
      Coarse == \E m \in Tag("mapping:coarse-graining") : V(m, "from") # "" /\ V(m, "to") # ""
      (* schemes which do not agree on when the coupling ends *)
      End(s) == <<Only(s, "max-time", "value", 0), Only(s, "max-time-windows", "value", 0), Only(s, "time-window-size", "value", 0)>>
      Apart == \E s, r \in Sch : s # r /\ Members(s) \intersect Members(r) # {} /\ End(s) # End(r)
      Unread == \E p \in Part : \E x \in Rd(p) : ~ Sourced(p, x[1], x[2])
      (* accepted, although no sensible run exists: known findings *)
      Odd == IF \E s, r \in Sch : s # r /\ \E e \in Ex(s), g \in Ex(r) : V(e, "mesh") = V(g, "mesh") /\ V(e, "data") = V(g, "data") /\ V(e, "to") = V(g, "to") THEN "F01-same-exchange"
             ELSE IF \E p \in Part : \E x \in Wr(p) : Arrives(V(p, "name"), x[1], x[2]) THEN "F01-written-received"
             ELSE IF \E p \in Part : \E w \in In(p, "watch-point") \union In(p, "watch-integral") : \E x \in Uses : x[1] = V(w, "mesh") /\ ~ Sourced(p, x[1], x[2]) THEN "F01-watch-unfed"
             ELSE IF \E f \in Tag("filter") : Num(V(f, "limit")) >= Unit THEN "F01-filter"
             ELSE ""
      (* mappings which may not fit the vertices they are given *)
      Delicate == \E m \in Tag("mapping:coarse-graining") \union Tag("mapping:axial-geometric-multiscale") \union Tag("mapping:radial-geometric-multiscale") : TRUE
      JustInTime == ~ Experimental /\ \E p \in Part : \E m \in Maps(p) : V(m, "from") = "" \/ V(m, "to") = ""
      Gradient == ~ Experimental /\ Tag("mapping:nearest-neighbor-gradient") # {}
      Scaling == \E p \in Part : \E m \in Maps(p) : V(m, "constraint") \in Scaled
      Sharp == \E k \in Kernels : \E m \in Tag(k) : \E b \in Ns(m, "basis-function") : DOMAIN T[b].at # {}
  IN [rule |-> Rules,
      own |-> IF Rules # "" THEN {} ELSE Own,
      start |-> IF Rules # "" THEN {} ELSE Start,
      odd |-> IF Rules = "" THEN Odd ELSE "",
      late |-> Rules = "" /\ (Unfilled \/ Unread \/ Coarse \/ Apart),
      delicate |-> Rules = "" /\ (Delicate \/ Gradient \/ JustInTime \/ Scaling \/ Sharp)]

Verdict(T) == IF Malformed(T) THEN [rule |-> "structure", own |-> {}, start |-> {}, odd |-> "", late |-> FALSE, delicate |-> FALSE] ELSE Read(T)

=============================================================================
