----------------------------- MODULE ConfigGen -----------------------------
(* Configurations a few edits away from the accepted ones in ConfigInput.tla, *)
(* each with the verdict Config.tla demands.                                   *)
EXTENDS Config, Json

CONSTANTS
  Which,     \* the templates to start from
  Edits,     \* how many edits
  Random     \* one random edit per step instead of all

VARIABLES T, done, tries, what
vars == <<T, done, tries, what>>

RECURSIVE Within(_, _, _)
Within(S, i, j) == j # 0 /\ (i = j \/ Within(S, i, S[j].up))
Sub(S, i) == {j \in 1..Len(S) : Within(S, i, j)}

(* the k-th smallest element of a set of naturals *)
Nth(S, k) == CHOOSE x \in S : Cardinality({y \in S : y < x}) = k - 1
Rank(S, x) == Cardinality({y \in S : y <= x})

Without(S, i) == LET keep == (1..Len(S)) \ Sub(S, i) IN
                 [k \in 1..Cardinality(keep) |-> LET j == Nth(keep, k) IN [S[j] EXCEPT !.up = IF @ = 0 THEN 0 ELSE Rank(keep, @)]]
Twin(S, i) == LET sub == Sub(S, i) IN
              S \o [k \in 1..Cardinality(sub) |-> LET j == Nth(sub, k) IN [S[j] EXCEPT !.up = IF j = i THEN @ ELSE Len(S) + Rank(sub, @)]]
Only2(f, S) == [x \in DOMAIN f \intersect S |-> f[x]]
Renamed(S, P, i, t) == [S EXCEPT ![i].tag = t, ![i].at = Only2(@, DOMAIN Tags[P[S[i].up] \o "/" \o t].attributes)]

(* attributes left out that have a documented default which can be written down *)
Defaults(S, P, i) == {a \in DOMAIN Tags[P[i]].attributes \ DOMAIN S[i].at :
                        LET x == Tags[P[i]].attributes[a] IN x.optional /\ x.default \in DOMAIN Values /\ TypeOk(x.type, x.default)}
Required(p) == {a \in DOMAIN Tags[p].attributes : ~ Tags[p].attributes[a].optional}
Filled0(p) == [a \in Required(p) |-> Sample[<<p, a>>]]

Known(P, i) == P[i] \in DOMAIN Tags
Mutations(S) ==
  LET P == Paths(S) all == 1..Len(S) good == {i \in all : Known(P, i)} IN
       {[op |-> "drop", i |-> i, a |-> "", v |-> ""] : i \in all \ {1}}
  \union {[op |-> "twin", i |-> i, a |-> "", v |-> ""] : i \in all \ {1}}
  \union {[op |-> "extra", i |-> i, a |-> "bogus", v |-> "1"] : i \in all}
  \union {[op |-> "child", i |-> i, a |-> "bogus", v |-> ""] : i \in all}
  \union UNION {{[op |-> "unset", i |-> i, a |-> a, v |-> ""] : a \in DOMAIN S[i].at} : i \in all}
  \union UNION {{[op |-> "default", i |-> i, a |-> a, v |-> Tags[P[i]].attributes[a].default] : a \in Defaults(S, P, i)} : i \in good}
  \union UNION {{[op |-> "add", i |-> i, a |-> "", v |-> t] : t \in {u \in Below(P[i]) : \A a \in Required(P[i] \o "/" \o u) : <<P[i] \o "/" \o u, a>> \in DOMAIN Sample}} : i \in good}
  \union UNION {UNION {{[op |-> "set", i |-> i, a |-> a, v |-> v] : v \in Pool[<<P[i], a>>]} : a \in {b \in DOMAIN Tags[P[i]].attributes : <<P[i], b>> \in DOMAIN Pool}} : i \in good}
  \union UNION {{[op |-> "tag", i |-> i, a |-> "", v |-> t] : t \in {u \in Below(P[S[i].up]) : Space(u) = Space(S[i].tag) /\ u # S[i].tag /\ (Space(u) # "" \/ (u \in Measures /\ S[i].tag \in Measures))}} : i \in good \ {1}}

Put(f, a, v) == [x \in DOMAIN f \union {a} |-> IF x = a THEN v ELSE f[x]]
Cut(f, a) == [x \in DOMAIN f \ {a} |-> f[x]]
Apply(S, m) == CASE m.op = "drop" -> Without(S, m.i) [] m.op = "twin" -> Twin(S, m.i)
                 [] m.op \in {"extra", "set", "default"} -> [S EXCEPT ![m.i].at = Put(@, m.a, m.v)]
                 [] m.op = "unset" -> [S EXCEPT ![m.i].at = Cut(@, m.a)]
                 [] m.op = "add" -> Append(S, [tag |-> m.v, up |-> m.i, at |-> Filled0(Paths(S)[m.i] \o "/" \o m.v)])
                 [] m.op = "child" -> Append(S, [tag |-> m.a, up |-> m.i, at |-> <<>>])
                 [] OTHER -> Renamed(S, Paths(S), m.i, m.v)

Emit(w, S) == PrintT("@@" \o ToJson([what |-> w, tree |-> S, verdict |-> Verdict(S)]))

Start(t) == [k \in 1..Len(Templates[t]) |-> Templates[t][k]]
Init == /\ \E t \in Which : T = Start(t) /\ what = <<t>>
        /\ done = 0 /\ tries = 0 /\ Emit(what, T)

(* Random: all but the last edit keep the configuration acceptable (given up after some tries) *)
Keep(S) == Random /\ done + 1 < Edits /\ tries < 60 /\ Verdict(S).rule # ""
Edit(m) == LET S == Apply(T, m) w == Append(what, m.op \o " " \o ToString(m.i) \o " " \o T[m.i].tag \o " " \o m.a \o "=" \o m.v) IN
           IF Keep(S) THEN tries' = tries + 1 /\ UNCHANGED <<T, done, what>>
           ELSE /\ T' = S /\ done' = done + 1 /\ tries' = 0
                /\ what' = w
                /\ (done' = Edits \/ ~ Random) => Emit(what', S)

Next == done < Edits /\ IF Random THEN Edit(RandomElement(Mutations(T))) ELSE \E m \in Mutations(T) : Edit(m)

GSpec == Init /\ [][Next]_vars

=============================================================================
