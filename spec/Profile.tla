------------------------------- MODULE Profile -------------------------------
(* The profiling records of one process: its calls produce begin, end, data and name
   entries which pass a bounded queue into the record file of the process.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Modes,        \* subset of {"off", "fundamental", "api", "all"}
          Limits,       \* queue limits ("flush-every")
          Sections,     \* names of user sections
          Depth,        \* nesting of user sections
          MaxOps,       \* calls besides construction
          Advances,     \* numbers of time windows, plus one; 0: finalized without being initialized
          Deaths        \* whether the process may end without finalize

VARIABLES mode, limit, todo,    \* configuration
          phase,                \* "new", "run", "done", "dead"
          open,                 \* user sections
          adv,                  \* time windows done
          all,                  \* entries of every group, in their order of occurrence (no names)
          queue, file, known,   \* known: names registered so far
          ops                   \* history of calls
vars == <<mode, limit, todo, phase, open, adv, all, queue, file, known, ops>>

Level == [off |-> 0, fundamental |-> 1, api |-> 2, all |-> 3]
B(n, g) == [k |-> "B", n |-> n, g |-> g]
E(n, g) == [k |-> "E", n |-> n, g |-> g]
D(n) == [k |-> "D", n |-> n, g |-> 1]
N(n) == [k |-> "N", n |-> n, g |-> 0]
Visible(s, m) == SelectSeq(s, LAMBDA x : x.k # "N" /\ x.g <= Level[m])
Names(s) == {s[i].n : i \in {j \in DOMAIN s : s[j].k = "N"}}
Internal == <<B("internal", 3), E("internal", 3)>>

(* one entry: its name is registered, it is queued if its group is recorded, and the queue is written to the file if it is
   too long, except when something begins *)
Put1(r, x) ==
  LET q1 == IF x.n \in r.known \/ (x.k = "D" /\ Level[mode] = 0) THEN r.q ELSE Append(r.q, N(x.n))
      q2 == IF x.g <= Level[mode] THEN Append(q1, x) ELSE q1
      flush == x.g <= Level[mode] /\ limit > 0 /\ Len(q2) > limit /\ (limit = 1 \/ x.k # "B")
  IN [q |-> IF flush THEN <<>> ELSE q2, f |-> IF flush THEN r.f \o q2 ELSE r.f, known |-> r.known \union {x.n}]
RECURSIVE PutAll(_, _)
PutAll(r, s) == IF s = <<>> THEN r ELSE PutAll(Put1(r, Head(s)), Tail(s))
(* the calls of one step *)
Put(s) ==
  LET r == PutAll([q |-> queue, f |-> file, known |-> known], s)
  IN queue' = r.q /\ file' = r.f /\ known' = r.known /\ all' = all \o s

Global == "_GLOBAL"
Start0 == <<B(Global, 1), B("construction", 1), B("configure", 1), B("readConfiguration", 1), E("readConfiguration", 1), E("configure", 1)>>
Start1 == Internal \o <<E("construction", 1), B("solver.initialize", 1)>>
(* before the configuration is read, entries wait in the queue: there is no file yet *)
Init ==
  /\ mode \in Modes /\ limit \in Limits /\ todo \in {n - 1 : n \in Advances}
  /\ phase = "new" /\ open = <<>> /\ adv = 0 /\ ops = <<>>
  /\ all = Start0 \o Start1
  /\ LET RECURSIVE Q(_, _)
         Q(q, x) == IF x = <<>> THEN q ELSE Q((IF Head(x).n \in Names(q) THEN q ELSE Append(q, N(Head(x).n))) \o <<Head(x)>>, Tail(x))
         r == PutAll([q |-> IF mode = "off" THEN <<>> ELSE Q(<<>>, Start0), f |-> <<>>, known |-> {Start0[i].n : i \in DOMAIN Start0}], Start1)
     IN queue = r.q /\ file = r.f /\ known = r.known

Const == UNCHANGED <<mode, limit, todo>>
Op(o, x, ok) == ops' = Append(ops, [op |-> o, x |-> x, ok |-> ok, adv |-> adv, vis |-> Len(Visible(all', mode))])
Alive == phase \in {"new", "run"}
Solver == IF phase = "new" THEN "solver.initialize" ELSE "solver.advance"

StartSection(s) == Alive /\ Len(open) < Depth /\ open' = Append(open, s) /\ Put(<<B(s, 1)>>) /\ Op("start", s, TRUE) /\ Const /\ UNCHANGED <<phase, adv>>
StopSection ==
  /\ Alive /\ open # <<>> /\ open' = SubSeq(open, 1, Len(open) - 1)
  /\ Put(<<E(open[Len(open)], 1)>>) /\ Op("stop", "", TRUE) /\ Const /\ UNCHANGED <<phase, adv>>
Allowed == IF phase = "new" THEN {"setMeshVertex.M", "setMeshVertices.M", "writeData.M_W"} ELSE {"readData.M_R"} \union (IF adv < todo \/ todo = 0 THEN {"writeData.M_W"} ELSE {})
(* calls that define a mesh, write or read *)
Call(f) ==
  /\ Alive /\ f \in Allowed
  /\ Put(<<B(f, 2)>> \o Internal \o <<E(f, 2)>>) /\ Op("call", f, TRUE) /\ Const /\ UNCHANGED <<phase, adv, open>>
(* rejected calls leave no trace *)
Reject(o) ==
  /\ Alive
  /\ CASE o = "slash" -> TRUE [] o = "late" -> phase = "run" /\ adv = todo /\ todo > 0 [] o = "stop" -> open = <<>> [] o = "init" -> phase = "new" /\ open # <<>> [] o = "adv" -> phase = "run" /\ adv < todo /\ open # <<>>
  /\ Const /\ UNCHANGED <<phase, adv, open, all, queue, file, known>> /\ Op(o, "", FALSE)
Initialize ==
  /\ phase = "new" /\ todo >= 0 /\ open = <<>> /\ phase' = "run"
  /\ Put(<<E("solver.initialize", 1), B("initialize", 1), D("meshSize")>> \o Internal \o <<E("initialize", 1), B("solver.advance", 1)>>)
  /\ Op("init", "", TRUE) /\ Const /\ UNCHANGED <<adv, open>>
Advance ==
  /\ phase = "run" /\ adv < todo /\ open = <<>> /\ adv' = adv + 1
  /\ Put(<<E("solver.advance", 1), B("advance", 1)>> \o Internal \o <<E("advance", 1), B("solver.advance", 1)>>)
  /\ Op("adv", "", TRUE) /\ Const /\ UNCHANGED <<phase, open>>
Closing == [i \in 1..Len(open) |-> E(open[Len(open) + 1 - i], 1)]
Finalize ==
  /\ \/ phase = "run" /\ adv = todo
     \/ phase = "new" /\ todo = -1
  /\ LET s == Closing \o <<E(Solver, 1), B("finalize", 1)>> \o Internal \o <<E("finalize", 1), E(Global, 1)>>
         r == PutAll([q |-> queue, f |-> file, known |-> known], s)
     IN /\ queue' = <<>> /\ file' = (IF mode = "off" THEN <<>> ELSE r.f \o r.q) /\ known' = r.known /\ all' = all \o s
  /\ open' = <<>> /\ phase' = "done" /\ Op("fin", "", TRUE) /\ Const /\ UNCHANGED adv
Die == /\ Deaths /\ Alive /\ phase' = "dead" /\ queue' = <<>> /\ Const /\ UNCHANGED <<open, adv, all, file, known>> /\ Op("die", "", TRUE)

Count == Len(ops)
Next ==
  \/ Count < MaxOps /\ \/ \E s \in Sections : StartSection(s)
                       \/ StopSection
                       \/ \E f \in {"setMeshVertex.M", "setMeshVertices.M", "writeData.M_W", "readData.M_R"} : Call(f)
                       \/ \E o \in {"slash", "stop", "init", "adv", "late"} : Reject(o)
                       \/ Die
  \/ Initialize \/ Advance \/ Finalize

(* What a reader of the file relies on. *)
RECURSIVE Nest(_, _)        \* stack of begun names after reading s, or <<"!">> if ends do not match
Nest(st, s) ==
  IF s = <<>> THEN st
  ELSE LET x == Head(s) IN
       CASE x.k = "B" -> Nest(Append(st, x.n), Tail(s))
         [] x.k = "E" -> IF st # <<>> /\ st[Len(st)] = x.n THEN Nest(SubSeq(st, 1, Len(st) - 1), Tail(s)) ELSE <<"!">>
         [] OTHER -> Nest(st, Tail(s))
RECURSIVE DefinedIn(_, _)
DefinedIn(seen, s) == s = <<>> \/ LET x == Head(s) IN IF x.k = "N" THEN x.n \notin seen /\ DefinedIn(seen \union {x.n}, Tail(s)) ELSE x.n \in seen /\ DefinedIn(seen, Tail(s))
RECURSIVE IsSub(_, _)
IsSub(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE ELSE IF Head(a) = Head(b) THEN IsSub(Tail(a), Tail(b)) ELSE IsSub(a, Tail(b))
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

NestInv == Nest(<<>>, file) # <<"!">> /\ Nest(<<>>, file \o queue) # <<"!">>
BalanceInv == phase = "done" => Nest(<<>>, file) = <<>>
NamesInv == DefinedIn({}, file \o queue)
CompleteInv == /\ IsPrefixOf(Visible(file, "all"), Visible(all, mode))
               /\ phase = "done" => Visible(file, "all") = Visible(all, mode)
               /\ mode = "off" => file = <<>>
SubsetInv == \A i \in {"off", "fundamental", "api"} : IsSub(Visible(all, i), Visible(all, CASE i = "off" -> "fundamental" [] i = "fundamental" -> "api" [] OTHER -> "all"))
(* a process that dies has lost at most as many entries as may wait, besides those that began last *)
RECURSIVE LastBegins(_)
LastBegins(s) == IF s = <<>> \/ s[Len(s)].k # "B" THEN 0 ELSE 1 + LastBegins(SubSeq(s, 1, Len(s) - 1))
Lost == Len(Visible(all, mode)) - Len(Visible(file, "all"))
DeathInv == limit > 0 => Lost <= limit + LastBegins(Visible(all, mode))
View == <<mode, limit, todo, phase, open, adv, all, queue, file, known, Len(ops)>>
Spec == Init /\ [][Next]_vars
==============================================================================
