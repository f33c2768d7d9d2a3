----------------------------- MODULE Partition -----------------------------
(***************************************************************************)
(* How a mesh that is provided by the ranks of one participant reaches the   *)
(* ranks of another one, is filtered there, and how data then travels in     *)
(* both directions.  Stages of every run:                                    *)
(*                                                                           *)
(*   place    vertices of the provided mesh and of the local mesh of the     *)
(*            receiver get a position and a rank                             *)
(*   filter   every receiving rank sees the vertices inside of its enlarged  *)
(*            bounding box (one of three filters, one or two levels)         *)
(*   tag      every rank tags the nearest visible neighbours of its vertices *)
(*   own      each tagged vertex gets exactly one owner                      *)
(*   move     consistent data provided -> local, conservative data back      *)
(*                                                                           *)
(* Ranks act in any order within a stage.  Positions and boxes are integer   *)
(* (doubled, as the enlargement is a multiple of one half).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS Gen, Xs, Ys,           \* coordinates of possible positions
          NP, NR,                \* numbers of provided and local vertices (sets)
          PR, RR,                \* numbers of ranks (sets)
          Filters, Safeties,     \* {"none","primary","secondary"}, halves
          Levels                 \* {1, 2}

VARIABLES cfg, prov, loc, ph, done, seen, choice, owner, got, back
vars == <<cfg, prov, loc, ph, done, seen, choice, owner, got, back>>

Lattice == Xs \X Ys
Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S
Ranks == 1..cfg.rr
PRanks == 1..cfg.pr
Mine(r) == {k \in DOMAIN loc : loc[k].rank = r}
Given(r) == {k \in DOMAIN prov : prov[k].rank = r}

Hull(S) == [d \in 1..2 |-> <<2 * Min({p[d] : p \in S}), 2 * Max({p[d] : p \in S})>>]
Longest(h) == Max({h[d][2] - h[d][1] : d \in 1..2})
Enlarged(h) == [d \in 1..2 |-> <<h[d][1] - (cfg.safety * Longest(h)) \div 2, h[d][2] + (cfg.safety * Longest(h)) \div 2>>]
Empty == <<<<1, 0>>, <<1, 0>>>>
Box(r) == IF Mine(r) = {} THEN Empty ELSE Enlarged(Hull({loc[k].pos : k \in Mine(r)}))
In(p, b) == \A d \in 1..2 : b[d][1] <= 2 * p[d] /\ 2 * p[d] <= b[d][2]
Overlap(a, b) == \A d \in 1..2 : a[d][1] <= b[d][2] /\ b[d][1] <= a[d][2]
Connected(r) == {q \in PRanks : Given(q) # {} /\ Mine(r) # {} /\ Overlap(Box(r), Hull({prov[k].pos : k \in Given(q)}))}

(* what a rank can see; with two levels only of the ranks whose boxes overlap its own *)
Visible(r) ==
  LET all == IF cfg.level = 2 THEN UNION {Given(q) : q \in Connected(r)} ELSE DOMAIN prov
  IN IF cfg.filter = "none" THEN all ELSE {k \in all : In(prov[k].pos, Box(r))}

Dist(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
Nearest(p, S) == {k \in S : \A j \in S : Dist(p, prov[k].pos) <= Dist(p, prov[j].pos)}

(* a rank with vertices that sees nothing is an error *)
Lost == {r \in Ranks : Mine(r) # {} /\ Visible(r) = {}}

----------------------------------------------------------------------------
None == [x \in {} |-> 0]
Init == /\ cfg \in (IF Gen THEN {[np |-> 0, nr |-> 0, pr |-> 1, rr |-> 1, filter |-> "none", safety |-> 0, level |-> 1]}
                    ELSE [np : NP, nr : NR, pr : PR, rr : RR, filter : Filters, safety : Safeties, level : Levels])
        /\ prov = <<>> /\ loc = <<>> /\ ph = (IF Gen THEN "cfg" ELSE "place") /\ done = {} /\ seen = None /\ choice = None /\ owner = None
        /\ got = None /\ back = None

Choose == /\ ph = "cfg" /\ ph' = "place"
          /\ cfg' \in Pick([np : NP, nr : NR, pr : PR, rr : RR, filter : Filters, safety : Safeties, level : Levels])
          /\ UNCHANGED <<prov, loc, done, seen, choice, owner, got, back>>

Valid == /\ cfg.level = 2 => cfg.filter # "primary" /\ cfg.pr > 1 /\ cfg.rr > 1
         /\ cfg.rr = 1 => cfg.filter = "none"      \* a serial receiver keeps everything

AddProvided ==
  /\ ph = "place" /\ Valid /\ Len(prov) < cfg.np
  /\ \E p \in Pick({q \in Lattice : \A k \in DOMAIN prov : prov[k].pos # q}) :
       (* global numbering: by rank *)
       \E r \in Pick((IF prov = <<>> THEN 1 ELSE prov[Len(prov)].rank)..cfg.pr) : prov' = Append(prov, [pos |-> p, rank |-> r])
  /\ UNCHANGED <<cfg, loc, ph, done, seen, choice, owner, got, back>>
AddLocal ==
  /\ ph = "place" /\ Valid /\ Len(prov) = cfg.np /\ Len(loc) < cfg.nr
  /\ \E p \in Pick(Lattice) : \E r \in Pick(Ranks) : loc' = Append(loc, [pos |-> p, rank |-> r])
  /\ UNCHANGED <<cfg, prov, ph, done, seen, choice, owner, got, back>>
Skip == /\ ph = "place" /\ ~ Valid /\ Gen /\ ph' = "cfg" /\ UNCHANGED <<cfg, prov, loc, done, seen, choice, owner, got, back>>
Placed == /\ ph = "place" /\ Valid /\ Len(prov) = cfg.np /\ Len(loc) = cfg.nr
          (* two levels do not support ranks without vertices *)
          /\ ph' = IF cfg.level = 2 /\ ((\E r \in Ranks : Mine(r) = {}) \/ (\E q \in PRanks : Given(q) = {})) THEN "drop" ELSE "filter"
          /\ UNCHANGED <<cfg, prov, loc, done, seen, choice, owner, got, back>>

Stage(from, to, r) ==
  /\ ph = from /\ r \in Ranks \ done
  /\ IF done \cup {r} = Ranks THEN ph' = to /\ done' = {} ELSE ph' = ph /\ done' = done \cup {r}

Filter(r) == /\ Stage("filter", IF Lost # {} THEN "error" ELSE "tag", r)
             /\ seen' = [q \in done \cup {r} |-> IF q = r THEN Visible(r) ELSE seen[q]]
             /\ UNCHANGED <<cfg, prov, loc, choice, owner, got, back>>

(* one of the nearest vertices per local vertex, the rank keeps these *)
Keep(r) == {choice[k] : k \in Mine(r)}
Tag(r) == /\ Stage("tag", "own", r)
          /\ \E f \in (IF Gen THEN {[k \in Mine(r) |-> CHOOSE j \in Nearest(loc[k].pos, seen[r]) : TRUE]}
                       ELSE {g \in [Mine(r) -> UNION {Nearest(loc[k].pos, seen[r]) : k \in Mine(r)}] : \A k \in Mine(r) : g[k] \in Nearest(loc[k].pos, seen[r])}) :
               choice' = choice @@ f
          /\ UNCHANGED <<cfg, prov, loc, seen, owner, got, back>>

(* vertices that several ranks keep get one of them, in any way *)
Own == /\ ph = "own" /\ ph' = "move"
       /\ LET K == UNION {Keep(r) : r \in Ranks}
          IN \E f \in (IF Gen THEN {[k \in K |-> CHOOSE r \in Ranks : k \in Keep(r)]} ELSE {g \in [K -> Ranks] : \A k \in K : k \in Keep(g[k])}) : owner' = f
       /\ UNCHANGED <<cfg, prov, loc, done, seen, choice, got, back>>

(* data moves between provider rank q and receiver rank r along the vertices that q gives and r keeps *)
Route(q, r) == Given(q) \cap Keep(r)
Load(k) == 3 ^ (k - 1)                  \* sums of different loads differ
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : f(x) + acc, 0, S)
Move(r) ==
  /\ Stage("move", "done", r)
  /\ LET kept == UNION {Route(q, r) : q \in PRanks}
         cons == [k \in Mine(r) |-> IF choice[k] \in kept THEN choice[k] ELSE 0]       \* the value of provided vertex j is j
         part == [j \in DOMAIN prov |-> SumOver({k \in Mine(r) : choice[k] = j /\ j \in kept}, Load)]
     IN /\ got' = got @@ cons
        /\ back' = [j \in DOMAIN prov |-> part[j] + (IF back = None THEN 0 ELSE back[j])]
  /\ UNCHANGED <<cfg, prov, loc, seen, choice, owner>>

Seqs(S) == SetToSortSeq(S, <)
Emit == /\ Gen /\ ph \in {"done", "error"} /\ ph' = "end"
        /\ PrintT("@@" \o ToJson([cfg |-> cfg, prov |-> prov, loc |-> loc, lost |-> Seqs(Lost),
             near |-> [k \in DOMAIN loc |-> Seqs(Nearest(loc[k].pos, Visible(loc[k].rank)))]]))
        /\ UNCHANGED <<cfg, prov, loc, done, seen, choice, owner, got, back>>
End == ph \in {"drop", "end"} /\ UNCHANGED vars

Next == Choose \/ AddProvided \/ AddLocal \/ Skip \/ Placed \/ Own \/ Emit
        \/ \E r \in 1..Max(RR) : Filter(r) \/ Tag(r) \/ Move(r)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Finished == ph = "done"
(* every local vertex gets a value, of a nearest vertex of what its rank can see *)
ValueInv == Finished => \A k \in DOMAIN loc : got[k] \in Nearest(loc[k].pos, Visible(loc[k].rank))
(* without filter (or with a box that holds a nearest one) the distribution makes no difference *)
TransparentInv == Finished => \A k \in DOMAIN loc :
  (cfg.level = 1 /\ cfg.filter = "none") \/ Nearest(loc[k].pos, DOMAIN prov) \cap Visible(loc[k].rank) # {}
    => got[k] \in Nearest(loc[k].pos, DOMAIN prov)
(* loads are neither lost nor counted twice *)
SumInv == Finished => SumOver(DOMAIN prov, LAMBDA j : back[j]) = SumOver(DOMAIN loc, Load)
(* and each arrives at one of the nearest vertices *)
LoadInv == Finished => \A j \in DOMAIN prov : back[j] = SumOver({k \in DOMAIN loc : choice[k] = j}, Load)
OwnInv == ph \in {"move", "done"} => /\ DOMAIN owner = {choice[k] : k \in DOMAIN loc}
                                     /\ \A j \in DOMAIN owner : \E k \in Mine(owner[j]) : choice[k] = j
(* an error is raised exactly if some rank would stay without any vertex *)
ErrorInv == ph = "error" => \E r \in Ranks : Mine(r) # {} /\ seen[r] = {}
NoErrorInv == (cfg.filter = "none" /\ cfg.level = 1 /\ cfg.np > 0) => ph # "error"
=============================================================================
