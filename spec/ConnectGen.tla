----------------------------- MODULE ConnectGen ------------------------------
(* Schedules of Connect for random configurations, for replay. *)
EXTENDS Connect
CONSTANTS Sizes, NParts, Faults   \* Faults: subset of {"none", "crash", "differ"}
Names == <<"A", "B", "C", "D">>
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Pairs(n) == {<<i, j>> \in (1..n) \X (1..n) : i < j}
SeqOf(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A x \in S : \E i \in DOMAIN s : s[i] = x
RECURSIVE Reach(_, _, _)
Reach(n, E, S) ==
  LET T == S \union {x \in 1..n : \E y \in S : <<x, y>> \in E \/ <<y, x>> \in E} IN IF T = S THEN S ELSE Reach(n, E, T)

GInit == /\ cfg = [parts |-> <<>>, size |-> [x \in {} |-> 0], links |-> <<>>, order |-> <<>>, diff |-> {}, fault |-> "", lazy |-> {}]
         /\ pr = <<>> /\ pc = <<>> /\ st = <<>> /\ seen = <<>> /\ files = [x \in {} |-> 0] /\ cnt = [x \in {} |-> 0]
         /\ done = {} /\ run = 0 /\ log = <<>> /\ phase = "config"
Rest == <<pr, pc, st, seen, files, cnt, done, run, log>>
Config ==
  /\ phase = "config" /\ phase' = "start" /\ UNCHANGED Rest
  /\ \E n \in Pick(NParts), f \in Pick(Faults) :
     \E s \in Pick([{Names[i] : i \in 1..n} -> Sizes]), E \in Pick({X \in SUBSET Pairs(n) : Reach(n, X, {1}) = 1..n}),
        d \in Pick([Pairs(n) -> BOOLEAN]), g \in Pick([Pairs(n) -> {FALSE, FALSE, TRUE}]),
        q \in Pick({{Names[i]} : i \in 1..n}), v \in Pick([Pairs(n) -> BOOLEAN]) :
     \E o \in Pick({x \in [1..Cardinality(E) -> 1..Cardinality(E)] : \A i, j \in DOMAIN x : i # j => x[i] # x[j]}) :
       cfg' = [parts |-> [i \in 1..n |-> Names[i]], size |-> s,
               links |-> [k \in 1..Cardinality(E) |-> LET e == SeqOf(E)[k] IN
                            [a |-> Names[IF d[e] THEN e[1] ELSE e[2]], r |-> Names[IF d[e] THEN e[2] ELSE e[1]], gs |-> g[e],
                                         p |-> Names[IF v[e] THEN e[1] ELSE e[2]]]],
               order |-> o,
               diff |-> IF f = "differ" THEN q ELSE {}, fault |-> f, lazy |-> {}]
Begin ==
  /\ phase = "start" /\ phase' = "run"
  /\ \E l \in Pick(SUBSET Procs) : cfg' = [cfg EXCEPT !.lazy = l]
  /\ pr' = [x \in Procs |-> Prog(x[1], x[2])]
  /\ pc' = [x \in Procs |-> 1] /\ st' = [x \in Procs |-> "run"] /\ seen' = [x \in Procs |-> 0]
  /\ run' = 1 /\ UNCHANGED <<files, cnt, done, log>>
Eager == {x \in Procs \ cfg.lazy : Able(x)}
Crashing == cfg.fault = "crash" /\ run = 1 /\ log # <<>>
Act ==
  /\ phase = "run"
  /\ \/ \E x \in Pick(IF Eager # {} THEN Eager ELSE {y \in Procs : Able(y)}) : Move(x)
     \/ /\ Crashing /\ RandomElement(1..(6 + 6 * Cardinality(Procs))) = 1
        /\ Crash
Crash2 == phase = "run" /\ Crashing /\ Still /\ Crash
Emit ==
  /\ phase = "run" /\ Still /\ ~(cfg.fault = "crash" /\ run = 1)
  /\ PrintT("@@" \o ToJson([cfg |-> cfg, log |-> log, run |-> run,
                            out |-> [p \in DOMAIN cfg.size |-> [k \in 1..cfg.size[p] |-> st[<<p, k - 1>>]]],
                            left |-> Cardinality(DOMAIN files)]))
  /\ phase' = "end" /\ UNCHANGED <<cfg, Rest>>
GNext == Config \/ Begin \/ Act \/ Crash2 \/ Emit
GSpec == GInit /\ [][GNext]_vars
=============================================================================
