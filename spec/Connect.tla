------------------------------- MODULE Connect -------------------------------
(***************************************************************************)
(* How the processes of several participants connect to each other: the      *)
(* ranks of a participant with its first rank, the first ranks of linked     *)
(* participants, who compare their configurations, and all ranks of linked   *)
(* participants.  The accepting side publishes its address in a file, which  *)
(* the requesting side waits for.  All processes can be killed at any point  *)
(* and started again; the files they leave behind stay.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

VARIABLES cfg,    \* [parts, size, links, order, diff], see below
          pr,     \* programs of all processes
          pc, st, \* position and state of all processes
          seen,   \* run whose address a process has read
          files,  \* connection files that exist: key -> [s |-> "tmp" or "pub", run]
          cnt,    \* connections accepted: key -> number
          done,   \* what was announced to others
          run,    \* 1, or 2 after all processes were killed
          log,    \* steps visible to the file system and the network
          phase   \* "config", "run" or "end"
vars == <<cfg, pr, pc, st, seen, files, cnt, done, run, log, phase>>

(* parts: sequence of names in alphabetical order, size: number of ranks,
   links: sequence of [a |-> accepting, r |-> requesting participant, gs |-> only the first ranks are connected,
   p |-> who provides the mesh], order: of the names of these meshes,
   diff: participants with another configuration *)
Procs == {<<p, k>> : p \in DOMAIN cfg.size, k \in 0..3} \cap {x \in (DOMAIN cfg.size) \X (0..3) : x[2] < cfg.size[x[1]]}
Peer(l, p) == IF l.a = p THEN l.r ELSE l.a
Of(l, p) == p \in {l.a, l.r}
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Index(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
(* links of p in the order of its partners *)
LinksOf(p) ==
  LET q == SelectSeq(cfg.parts, LAMBDA x : \E i \in 1..Len(cfg.links) : Of(cfg.links[i], p) /\ x = Peer(cfg.links[i], p))
  IN [j \in 1..Len(q) |-> CHOOSE i \in 1..Len(cfg.links) : Of(cfg.links[i], p) /\ Peer(cfg.links[i], p) = q[j]]

I(k) == [k |-> k]
Acc(key, n) == <<[k |-> "W", key |-> key], [k |-> "P", key |-> key], [k |-> "A", key |-> key, n |-> n], [k |-> "D", key |-> key]>>
Req(key) == <<[k |-> "R", key |-> key], [k |-> "C", key |-> key]>>
Tell(id) == <<[k |-> "F", id |-> id]>>
Hear(id) == <<[k |-> "G", id |-> id]>>
Either(l, p, key, n) == IF l.a = p THEN Acc(key, n) ELSE Req(key)

Intra(p, k) ==
  IF cfg.size[p] = 1 THEN <<>>
  ELSE (IF k = 0 THEN Acc(<<p, p, "intra", 0>>, cfg.size[p] - 1) ELSE Req(<<p, p, "intra", 0>>))
       \o <<[k |-> "N", id |-> 0], [k |-> "M", id |-> 0]>>
Primary(p, k, i) ==
  LET l == cfg.links[i]  id == <<"prim", i>> IN
  (IF k = 0 THEN Either(l, p, <<l.a, l.r, "prim", 0>>, 1) \o <<[k |-> "I", id |-> i], [k |-> "J", id |-> i]>> \o Tell(id) ELSE Hear(id))
(* the meshes are exchanged in the order of their names *)
Meshes_(p) == SelectSeq(cfg.order, LAMBDA i : Of(cfg.links[i], p))
Parts_(p, k) == IF k = 0
                THEN LET m == Meshes_(p) IN [j \in 1..Len(m) |-> [k |-> IF cfg.links[m[j]].p = p THEN "V" ELSE "X", id |-> m[j]]] \o Tell(<<"part">>)
                ELSE Hear(<<"part">>)
Secondary(p, k, i) ==
  LET l == cfg.links[i]  id == <<"dist", i>> IN
  IF l.gs THEN <<>>
  ELSE (IF k = 0 THEN Either(l, p, <<l.a, l.r, "tmp", 0>>, 1) \o Tell(id) ELSE Hear(id))
       \o (IF l.a = p THEN Acc(<<l.a, l.r, "mesh", k>>, cfg.size[l.r])
           ELSE Flat([j \in 1..cfg.size[l.a] |-> Req(<<l.a, l.r, "mesh", j - 1>>)]))
Cleanup(p, k, i) ==
  LET l == cfg.links[i] IN
  IF l.a # p THEN <<>>
  ELSE <<[k |-> "N", id |-> i]>> \o (IF k = 0 THEN <<[k |-> "M", id |-> i], [k |-> "K", id |-> i]>> ELSE <<>>)
Prog(p, k) ==
  LET L == LinksOf(p) IN
  <<I("S")>> \o Intra(p, k) \o Flat([j \in 1..Len(L) |-> Primary(p, k, L[j])]) \o Parts_(p, k)
  \o Flat([j \in 1..Len(L) |-> Secondary(p, k, L[j])]) \o Flat([j \in 1..Len(L) |-> Cleanup(p, k, L[j])])

Start ==
  /\ pr = [x \in Procs |-> Prog(x[1], x[2])]
  /\ pc = [x \in Procs |-> 1] /\ st = [x \in Procs |-> "run"]
  /\ seen = [x \in Procs |-> 0]
  /\ files = [x \in {} |-> 0] /\ cnt = [x \in {} |-> 0] /\ done = {} /\ run = 1 /\ log = <<>>

-----------------------------------------------------------------------------
Here(key) == key \in DOMAIN files
Put(f, key, v) == [x \in DOMAIN f \union {key} |-> IF x = key THEN v ELSE f[x]]
Del(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Cnt(key) == IF key \in DOMAIN cnt THEN cnt[key] ELSE 0
Gone(p) == st[<<p, 0>>] \in {"err", "lost"}
Differ(i) == (cfg.links[i].a \in cfg.diff) # (cfg.links[i].r \in cfg.diff)

Able(x) ==
  /\ st[x] = "run"
  /\ LET p == x[1]  i == pr[x][pc[x]] IN
     CASE i.k = "A" -> Cnt(i.key) >= i.n
       [] i.k = "R" -> Here(i.key) /\ files[i.key].s = "pub"
       [] i.k = "C" -> seen[x] = run
       [] i.k = "J" -> LET q == Peer(cfg.links[i.id], p) IN <<"I", q, i.id>> \in done \/ Gone(q)
       [] i.k = "G" -> <<"F", p, i.id>> \in done \/ Gone(p)
       [] i.k = "M" -> (\A k \in 0..(cfg.size[p] - 1) : <<"N", p, k, i.id>> \in done) \/ \E k \in 0..(cfg.size[p] - 1) : st[<<p, k>>] \in {"err", "lost"}
       [] i.k = "X" -> LET q == Peer(cfg.links[i.id], p) IN <<"V", q, i.id>> \in done \/ Gone(q)
       [] OTHER -> TRUE

Visible == {"S", "W", "P", "D", "R", "C"}
Move(x) ==
  /\ Able(x)
  /\ LET p == x[1]
         i == pr[x][pc[x]]
         bad == CASE i.k = "W" -> IF Here(i.key) THEN "err" ELSE ""
                  [] i.k = "J" -> IF <<"I", Peer(cfg.links[i.id], p), i.id>> \notin done THEN "lost" ELSE IF Differ(i.id) THEN "err" ELSE ""
                  [] i.k = "G" -> IF <<"F", p, i.id>> \notin done THEN "lost" ELSE ""
                  [] i.k = "M" -> IF \E k \in 0..(cfg.size[p] - 1) : <<"N", p, k, i.id>> \notin done THEN "lost" ELSE ""
                  [] i.k = "X" -> IF <<"V", Peer(cfg.links[i.id], p), i.id>> \notin done THEN "lost" ELSE ""
                  [] OTHER -> ""
     IN /\ st' = [st EXCEPT ![x] = IF bad # "" THEN bad ELSE IF pc[x] = Len(pr[x]) THEN "ok" ELSE "run"]
        /\ pc' = [pc EXCEPT ![x] = IF bad = "" /\ @ < Len(pr[x]) THEN @ + 1 ELSE @]
        /\ files' = (CASE i.k = "W" -> IF bad = "" THEN Put(files, i.key, [s |-> "tmp", run |-> run])
                                       ELSE IF files[i.key].s = "pub" THEN Del(files, {i.key}) ELSE files
                       [] i.k = "P" -> Put(files, i.key, [s |-> "pub", run |-> run])
                       [] i.k = "D" -> Del(files, {i.key})
                       [] i.k = "K" -> Del(files, {y \in DOMAIN files : y[1] = cfg.links[i.id].a /\ y[2] = cfg.links[i.id].r})
                       [] OTHER -> files)
        /\ seen' = [seen EXCEPT ![x] = IF i.k = "R" THEN files[i.key].run ELSE @]
        /\ cnt' = IF i.k = "C" THEN Put(cnt, i.key, Cnt(i.key) + 1) ELSE cnt
        /\ done' = done \union (CASE i.k = "I" -> {<<"I", p, i.id>>} [] i.k = "F" -> {<<"F", p, i.id>>}
                                  [] i.k = "N" -> {<<"N", p, x[2], i.id>>} [] i.k = "V" -> {<<"V", p, i.id>>} [] OTHER -> {})
        /\ log' = IF i.k \in Visible /\ bad = "" THEN Append(log, <<x[1], x[2], i.k>>) ELSE log
  /\ UNCHANGED <<cfg, pr, run, phase>>

Crash ==
  /\ run = 1
  /\ run' = 2
  /\ pc' = [x \in Procs |-> 1] /\ st' = [x \in Procs |-> "run"] /\ seen' = [x \in Procs |-> 0]
  /\ cnt' = [x \in {} |-> 0] /\ done' = {}
  /\ log' = Append(log, <<"", 0, "X">>)
  /\ UNCHANGED <<cfg, pr, files, phase>>

Still == \A x \in Procs : ~Able(x)

-----------------------------------------------------------------------------
(* nobody connects to an address of an earlier run, and never more than are awaited *)
PeerInv == phase = "run" => \A x \in Procs : st[x] = "run" =>
              LET i == pr[x][pc[x]] IN i.k = "A" => Cnt(i.key) <= i.n
(* same configuration, nothing left over: everybody connects and nothing is left over *)
ConnectInv == phase = "run" /\ run = 1 /\ cfg.diff = {} /\ Still => (\A x \in Procs : st[x] = "ok") /\ DOMAIN files = {}
(* different configurations: both first ranks refuse, the other ranks do not go on *)
RefuseInv == phase = "run" /\ run = 1 /\ Still => \A i \in 1..Len(cfg.links) : Differ(i) =>
                /\ \A p \in {cfg.links[i].a, cfg.links[i].r} : \A k \in 0..(cfg.size[p] - 1) : st[<<p, k>>] # "ok"
                /\ Len(cfg.links) = 1 => \A p \in {cfg.links[i].a, cfg.links[i].r} :
                       /\ st[<<p, 0>>] = "err"
                       /\ \A k \in 1..(cfg.size[p] - 1) : st[<<p, k>>] = "lost"
(* files of an earlier run: an accepting side that meets one ends with an error instead of waiting *)
StaleInv == phase = "run" /\ run = 2 => \A x \in Procs : st[x] = "run" =>
               LET i == pr[x][pc[x]] IN i.k = "A" => (Here(i.key) => files[i.key].run = 2)
(* a second run either meets a file and fails or leaves nothing behind *)
AgainInv == phase = "run" /\ run = 2 /\ Still => \/ \E x \in Procs : st[x] = "err"
                                                 \/ (\A x \in Procs : st[x] = "ok") /\ \A y \in DOMAIN files : files[y].run = 2 => FALSE
=============================================================================
