----------------------------- MODULE ConnectMC -------------------------------
(* Connect, all schedules of small configurations. *)
EXTENDS Connect
CONSTANTS NParts, Sizes, Dirs, GS, Diffs, Crashes
Names == <<"A", "B", "C", "D">>
P == {Names[i] : i \in 1..NParts}
Pairs == {<<i, j>> \in (1..NParts) \X (1..NParts) : i < j}
SeqOf(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A x \in S : \E i \in DOMAIN s : s[i] = x
Reach[E \in SUBSET Pairs, S \in SUBSET (1..NParts)] ==
  LET T == S \union {x \in 1..NParts : \E y \in S : <<x, y>> \in E \/ <<y, x>> \in E} IN IF T = S THEN S ELSE Reach[E, T]
Configs == {[parts |-> [i \in 1..NParts |-> Names[i]], size |-> s,
             links |-> [k \in 1..Cardinality(E) |-> LET e == SeqOf(E)[k] IN
                          [a |-> Names[IF d[e] THEN e[1] ELSE e[2]], r |-> Names[IF d[e] THEN e[2] ELSE e[1]], gs |-> g,
                                         p |-> Names[IF o = "up" THEN e[1] ELSE e[2]]]],
             order |-> [k \in 1..Cardinality(E) |-> IF o = "up" THEN k ELSE Cardinality(E) + 1 - k],
             diff |-> f] : s \in [P -> Sizes], E \in {X \in SUBSET Pairs : Reach[X, {1}] = 1..NParts}, d \in [Pairs -> Dirs], g \in GS, f \in Diffs, o \in {"up", "down"}}
MInit == cfg \in Configs /\ phase = "run" /\ Start
MNext == (\E x \in Procs : Move(x)) \/ (Crashes /\ cfg.diff = {} /\ Crash) \/ (Still /\ UNCHANGED vars)
MSpec == MInit /\ [][MNext]_vars
View == <<cfg, pc, st, seen, files, cnt, done, run, phase>>
=============================================================================
