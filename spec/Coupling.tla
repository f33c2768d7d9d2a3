------------------------------- MODULE Coupling -------------------------------
(***************************************************************************)
(* Observable behaviour of coupled preCICE participants.                    *)
(*                                                                           *)
(* A configuration (variable cfg) is a set of participants, a sequence of    *)
(* coupling schemes and a sequence of data exchanges.  Participants run      *)
(* initialize() and advance() as programs of small blocking operations       *)
(* (send, receive, decide, move on ...) over FIFO channels.                  *)
(*                                                                           *)
(* Time is measured in integer ticks.  A data value is a pair <<a, b>>: a    *)
(* scales the vertices of class 0, b those of class 1, so that a partially   *)
(* written mesh (the rest counts as zero) can be expressed.                  *)
(*                                                                           *)
(* The same module is used exhaustively (fixed configurations, small         *)
(* constants) and as generator of behaviours that are replayed in the real   *)
(* library: variable tr then records the expected result of every call.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Record,      \* TRUE: keep the expected observations in tr
          Cap          \* capacity of a channel (0: unbounded)

VARIABLES cfg, ps, ch, tr, gen

INF == 1000000
MinI(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Zero == <<0, 0>>
LastOf(q) == q[Len(q)]
S1(t, v) == <<[t |-> t, v |-> v]>>

(* the elements of 1..n satisfying P, ascending *)
IdxSeq(P(_), n) == SelectSeq([k \in 1..n |-> k], P)
(* concatenation of F(q[1]), F(q[2]), ... *)
Flat(F(_), q) == FlattenSeq([k \in 1..Len(q) |-> F(q[k])])
Sel(q, P(_)) == SelectSeq(q, P)

-----------------------------------------------------------------------------
(* Configuration accessors *)
Parts == Range(cfg.parts)
NS == Len(cfg.sch)
NE == Len(cfg.ex)
Kind(s) == cfg.sch[s].kind
Serial(s)   == Kind(s) \in {"SE", "SI"}
Parallel(s) == Kind(s) \in {"PE", "PI"}
Multi(s)    == Kind(s) = "MI"
Impl(s)     == Kind(s) \in {"SI", "PI", "MI"}
(* members: cfg.sch[s].a is the first participant (for multi: not used),
   cfg.sch[s].b the second participant (for multi: the controller)        *)
Mem(s, p)   == p = cfg.sch[s].b \/ (IF Multi(s) THEN p \in Range(cfg.sch[s].oth) ELSE p = cfg.sch[s].a)
IsSecond(s, p) == p = cfg.sch[s].b
Partners(s, p) == IF Multi(s) THEN IF IsSecond(s, p) THEN cfg.sch[s].oth ELSE <<cfg.sch[s].b>>
                  ELSE <<IF IsSecond(s, p) THEN cfg.sch[s].a ELSE cfg.sch[s].b>>
FirstMeth(s) == cfg.sch[s].meth = "first"
MyImpl(p) == IdxSeq(LAMBDA s : Mem(s, p) /\ Impl(s), NS)
MyExpl(p) == IdxSeq(LAMBDA s : Mem(s, p) /\ ~Impl(s), NS)
(* order in which the schemes of a participant are served: explicit ones in
   configuration order, then the implicit one *)
MySchemes(p) == MyExpl(p) \o MyImpl(p)
Out(p, s, q) == IdxSeq(LAMBDA i : cfg.ex[i].s = s /\ cfg.ex[i].from = p /\ cfg.ex[i].to = q, NE)
OutAll(p)    == IdxSeq(LAMBDA i : cfg.ex[i].from = p, NE)
InAll(p)     == IdxSeq(LAMBDA i : cfg.ex[i].to = p, NE)
AnyInit(e)   == \E k \in 1..Len(e) : cfg.ex[e[k]].init
SendsInit(p, s) == \E i \in 1..NE : cfg.ex[i].s = s /\ cfg.ex[i].from = p /\ cfg.ex[i].init
RequiresInit(p) == \E i \in 1..NE : cfg.ex[i].from = p /\ cfg.ex[i].init
Deg(i) == cfg.ex[i].deg
Datas(p) == {cfg.ex[i].d : i \in Range(OutAll(p))}

-----------------------------------------------------------------------------
(* Time of a scheme instance *)
Time(z) == z.ws + z.pr
UntilEnd(s, z) == IF cfg.sch[s].maxT = 0 THEN INF ELSE cfg.sch[s].maxT - Time(z)
ReachedMax(s, z) == cfg.sch[s].maxT # 0 /\ Time(z) = cfg.sch[s].maxT
Ongoing(s, z) == (cfg.sch[s].maxW = 0 \/ cfg.sch[s].maxW >= z.tw) /\ ~ReachedMax(s, z)
MaxStep(s, z) == IF ~Ongoing(s, z) THEN 0
                 ELSE IF z.size = 0 THEN UntilEnd(s, z)
                 ELSE MinI(z.size - z.pr, UntilEnd(s, z))
AtEnd(s, z) == IF z.size = 0 THEN TRUE ELSE z.pr = z.size \/ ReachedMax(s, z)

(* participant level: composition of its schemes *)
St(p, s) == ps[p].st[s]
Lead(p) == IF MyImpl(p) # <<>> THEN MyImpl(p)[1] ELSE MyExpl(p)[1]
ActiveS(p) == IF ps[p].hold THEN MyImpl(p) ELSE MySchemes(p)
PTime(p) == Time(St(p, Lead(p)))
POngoing(p) == Ongoing(Lead(p), St(p, Lead(p)))
RECURSIVE MinStep(_, _)
MinStep(p, q) == IF q = <<>> THEN INF ELSE MinI(MaxStep(q[1], St(p, q[1])), MinStep(p, Tail(q)))
PMaxStep(p) == MinStep(p, ActiveS(p))
PComplete(p) == \E k \in 1..Len(ActiveS(p)) : St(p, ActiveS(p)[k]).comp
PNeedsWrite(p) == \E k \in 1..Len(ActiveS(p)) : St(p, ActiveS(p)[k]).wc
PNeedsRead(p)  == \E k \in 1..Len(ActiveS(p)) : St(p, ActiveS(p)[k]).rc

-----------------------------------------------------------------------------
(* Interpolation of a sequence of samples with increasing times *)
Lin(x, y, t) == (* value at t on the line through samples x and y, as numerators over y.t-x.t *)
   [a |-> x.v[1] * (y.t - t) + y.v[1] * (t - x.t),
    b |-> x.v[2] * (y.t - t) + y.v[2] * (t - x.t), den |-> y.t - x.t]
UsedDeg(w, d) == MinI(d, Len(w) - 1)
IdxAtOrAfter(w, t) == CHOOSE k \in 1..Len(w) : w[k].t >= t /\ \A j \in 1..(k - 1) : w[j].t < t
HasAtOrAfter(w, t) == \E k \in 1..Len(w) : w[k].t >= t
HasTime(w, t) == \E k \in 1..Len(w) : w[k].t = t
Sample(w, t, d) ==
   LET n == Len(w) IN
   IF n = 1 THEN [k |-> "v", a |-> w[1].v[1], b |-> w[1].v[2], den |-> 1]
   ELSE IF ~HasAtOrAfter(w, t) \/ t < w[1].t THEN [k |-> "out"]
   ELSE LET i == IdxAtOrAfter(w, t) IN
        IF w[i].t = t \/ UsedDeg(w, d) = 0 THEN [k |-> "v", a |-> w[i].v[1], b |-> w[i].v[2], den |-> 1]
        ELSE IF UsedDeg(w, d) = 1
             THEN LET l == Lin(w[i - 1], w[i], t) IN [k |-> "v", a |-> l.a, b |-> l.b, den |-> l.den]
             ELSE [k |-> "s", deg |-> UsedDeg(w, d), t |-> t, w |-> w]

-----------------------------------------------------------------------------
(* Micro operations *)
Snd(s, q)       == [o |-> "snd", s |-> s, q |-> q]
Rcv(s, q, when) == [o |-> "rcv", s |-> s, q |-> q, w |-> when]
Op(o, s)        == [o |-> o, s |-> s, q |-> ""]
OpQ(o, s, q)    == [o |-> o, s |-> s, q |-> q]
SndIf(c, s, p, q)    == IF c /\ Out(p, s, q) # <<>> THEN <<Snd(s, q)>> ELSE <<>>
RcvIf(c, s, p, q, w) == IF c /\ Out(q, s, p) # <<>> THEN <<Rcv(s, q, w)>> ELSE <<>>
If(c, q) == IF c THEN q ELSE <<>>

InitOps(p, s) ==
  LET c == cfg.sch[s]
      other == Partners(s, p)[1]
      sI(q) == SndIf(AnyInit(Out(p, s, q)), s, p, q)
      rI(q) == RcvIf(AnyInit(Out(q, s, p)), s, p, q, "now")
  IN (IF Serial(s)
      THEN IF ~IsSecond(s, p) THEN rI(other) \o sI(other)
           ELSE sI(other) \o rI(other) \o If(FirstMeth(s), <<OpQ("rsz", s, other)>>)
                \o <<Op("isz", s)>> \o RcvIf(TRUE, s, p, other, "end")
      ELSE LET qs == IF Multi(s) THEN cfg.parts ELSE <<other>>    \* data may also pass between other members of a multi scheme
           IN IF ~IsSecond(s, p) THEN Flat(sI, qs) \o Flat(rI, qs) ELSE Flat(rI, qs) \o Flat(sI, qs))
     \o <<Op("ini", s)>>

MultiSndTo(p, s) == Flat(LAMBDA q : SndIf(TRUE, s, p, q), cfg.parts)
MultiRcvFrom(p, s) == Flat(LAMBDA q : RcvIf(TRUE, s, p, q, "now"), cfg.parts)

FirstOps(p, s) ==
  LET o == Partners(s, p)[1] IN
  CASE Kind(s) = "SE" -> If(FirstMeth(s) /\ ~IsSecond(s, p), <<OpQ("ssz", s, o)>>) \o SndIf(TRUE, s, p, o)
    [] Kind(s) = "SI" -> IF ~IsSecond(s, p)
                         THEN If(FirstMeth(s), <<OpQ("ssz", s, o)>>) \o SndIf(TRUE, s, p, o)
                         ELSE <<Op("dec", s), OpQ("scv", s, o)>> \o SndIf(TRUE, s, p, o)
    [] Parallel(s)    -> IF ~IsSecond(s, p) THEN SndIf(TRUE, s, p, o) ELSE RcvIf(TRUE, s, p, o, "now")
    [] Multi(s)       -> IF ~IsSecond(s, p) THEN MultiSndTo(p, s) ELSE MultiRcvFrom(p, s)

SecondOps(p, s) ==
  LET o == Partners(s, p)[1] IN
  (CASE Kind(s) = "SE" -> IF ~IsSecond(s, p) THEN RcvIf(TRUE, s, p, o, "now") \o <<Op("mov", s)>>
                          ELSE <<Op("mov", s), Op("nxt", s)>>
     [] Kind(s) = "SI" -> IF ~IsSecond(s, p)
                          THEN <<OpQ("rcv?", s, o)>> \o RcvIf(TRUE, s, p, o, "now") \o <<Op("mvc", s)>>
                          ELSE <<Op("mvc", s), Op("nxt", s)>>
     [] Kind(s) = "PE" -> IF ~IsSecond(s, p) THEN RcvIf(TRUE, s, p, o, "now") \o <<Op("mov", s)>>
                          ELSE SndIf(TRUE, s, p, o) \o <<Op("mov", s)>>
     [] Kind(s) = "PI" -> IF ~IsSecond(s, p)
                          THEN <<OpQ("rcv?", s, o)>> \o RcvIf(TRUE, s, p, o, "now") \o <<Op("mvc", s)>>
                          ELSE <<Op("dec", s), OpQ("scv", s, o)>> \o SndIf(TRUE, s, p, o) \o <<Op("mvc", s)>>
     [] Multi(s)       -> IF ~IsSecond(s, p)
                          THEN <<OpQ("rcv?", s, cfg.sch[s].b)>> \o MultiRcvFrom(p, s) \o <<Op("mvc", s)>>
                          ELSE <<Op("dec", s)>> \o Flat(LAMBDA q : <<OpQ("scv", s, q)>>, Partners(s, p))
                               \o MultiSndTo(p, s) \o <<Op("mvc", s)>>)
  \o <<Op("fin", s)>>

FirstOf(q)  == Flat(LAMBDA s : <<Op("1st", s)>>, q)
SecondOf(q) == Flat(LAMBDA s : <<Op("2nd", s)>>, q)

-----------------------------------------------------------------------------
(* Waveforms.  ps[p].rd[i]: samples known to the reader of exchange i,
   ps[p].wr[i]: samples of the writer for exchange i,
   ps[p].pv[i]: previous iterate of exchange i (both sides).               *)
Cur(p, i) == IF cfg.ex[i].from = p THEN ps[p].wr[i] ELSE ps[p].rd[i]
InScheme(p, s) == {i \in 1..NE : cfg.ex[i].s = s /\ (cfg.ex[i].from = p \/ cfg.ex[i].to = p)}
LastOnly(w) == <<LastOf(w)>>

MsgData(p, s, q) ==
  LET e == Out(p, s, q) IN
  [k |-> "D", s |-> s, g |-> ps[p].gn,
   w |-> [j \in 1..Len(e) |-> IF cfg.ex[e[j]].sub THEN ps[p].wr[e[j]] ELSE LastOnly(ps[p].wr[e[j]])]]

Deliver(p, s, q, m, T) ==     \* new rd after receiving message m
  LET e == Out(q, s, p) IN
  [i \in 1..NE |->
     IF \E j \in 1..Len(e) : e[j] = i
     THEN LET j == CHOOSE j \in 1..Len(e) : e[j] = i
          IN IF cfg.ex[i].sub THEN m.w[j]
             ELSE Sel(ps[p].rd[i], LAMBDA x : x.t < T) \o S1(T, LastOf(m.w[j]).v)
     ELSE ps[p].rd[i]]

-----------------------------------------------------------------------------
(* Convergence of an iteration.  One measure: [i, type, n, d, suffices, strict]:
   type abs: residual <= n/2;  rel: residual <= n/1000 |new|;
   res: residual < n/1000 first residual; aor: abs (n) or rel (d).
   Measured data is always written completely (both classes equal), so the
   residual is a multiple of the scalar difference.                         *)
NewV(p, i)  == LastOf(Cur(p, i)).v[1]
OldV(p, i)  == LastOf(ps[p].pv[i]).v[1]
Resid(p, i) == Abs(NewV(p, i) - OldV(p, i))
FirstRes(p, s, k) == IF ps[p].fr[k] < 0 THEN Resid(p, cfg.sch[s].conv[k].i) ELSE ps[p].fr[k]
MeasureOK(p, s, k) ==
  LET m == cfg.sch[s].conv[k]
      r == Resid(p, m.i)
      av == Abs(NewV(p, m.i))
  IN CASE m.type = "abs" -> 2 * r <= m.n
       [] m.type = "rel" -> 1000 * r <= m.n * av
       [] m.type = "res" -> 1000 * r < m.n * FirstRes(p, s, k)
       [] m.type = "aor" -> 2 * r <= m.n \/ 1000 * r <= m.d * av
(* comparisons that a rounding error could decide differently *)
Delicate(p, s, k) ==
  LET m == cfg.sch[s].conv[k]
      r == Resid(p, m.i)
      av == Abs(NewV(p, m.i))
  IN CASE m.type = "abs" -> FALSE
       [] m.type = "rel" -> r # 0 /\ 1000 * r = m.n * av
       [] m.type = "res" -> FirstRes(p, s, k) = 0 \/ (m.n < 1000 /\ 1000 * r = m.n * FirstRes(p, s, k))
       [] m.type = "aor" -> r # 0 /\ 1000 * r = m.d * av

(* constant relaxation, omega = on / od *)
PrevAt(p, i, t) == Sample(ps[p].pv[i], t, Deg(i))
RelaxOne(c, v, o, den) == (v * c.on * den + o * (c.od - c.on)) \div (c.od * den)
RelaxExact(c, v, o, den) == (v * c.on * den + o * (c.od - c.on)) % (c.od * den) = 0
Relax(p, s, i, w) ==
  LET c == cfg.sch[s].acc IN
  [k \in 1..Len(w) |->
     IF w[k].t <= St(p, s).ws THEN w[k]
     ELSE LET o == PrevAt(p, i, w[k].t)
          IN [t |-> w[k].t, v |-> <<RelaxOne(c, w[k].v[1], o.a, o.den), RelaxOne(c, w[k].v[2], o.b, o.den)>>]]
RelaxRepresentable(p, s, i, w) ==
  LET c == cfg.sch[s].acc IN
  \A k \in 1..Len(w) : w[k].t > St(p, s).ws =>
     LET o == PrevAt(p, i, w[k].t)
     IN o.k = "v" /\ RelaxExact(c, w[k].v[1], o.a, o.den) /\ RelaxExact(c, w[k].v[2], o.b, o.den)

-----------------------------------------------------------------------------
(* Recording *)
Note(p, e) == IF Record THEN tr' = [tr EXCEPT ![p] = Append(@, e)] ELSE tr' = tr

Obs(p) == [on |-> POngoing(p), cp |-> PComplete(p), dt |-> PMaxStep(p), t |-> PTime(p),
           rc |-> PNeedsRead(p), wc |-> PNeedsWrite(p)]

\* -- a single blocking operation of participant p ---------------------------
(* Remeshing: participants that may redefine meshes first tell each other at
   the end of a window whether they did.  gn: how often p redefined its (two)
   meshes, pg: the same of its partner as far as p knows, rst: meshes
   redefined since the last step, dirty: samples of this window may be
   missing or reset to zero, except for the latest ones.                    *)
RM == "rm" \in DOMAIN cfg
ZeroAll(w) == [k \in 1..Len(w) |-> [t |-> w[k].t, v |-> Zero]]
ZeroOld(w) == [k \in 1..Len(w) |-> IF k = Len(w) THEN w[k] ELSE [t |-> w[k].t, v |-> Zero]]

Room(p, q) == Cap = 0 \/ Len(ch[<<p, q>>]) < Cap

Pop(p) == Tail(ps[p].todo)
SetSt(p, s, z, todo) == [ps[p] EXCEPT !.st[s] = z, !.todo = todo]

Step(p) ==
  /\ ps[p].pc = "busy" /\ ps[p].todo # <<>>
  /\ UNCHANGED <<cfg, gen, tr>>
  /\ LET op == Head(ps[p].todo)
         s  == op.s
         q  == op.q
         z  == St(p, s)
         rest == Pop(p)
     IN
     \/ /\ op.o = "snd" /\ Room(p, q)
        /\ ch' = [ch EXCEPT ![<<p, q>>] = Append(@, MsgData(p, s, q))]
        /\ ps' = [ps EXCEPT ![p].todo = rest]
     \/ /\ op.o = "rcv" /\ ch[<<q, p>>] # <<>>
        /\ LET T == IF op.w = "now" THEN Time(z) ELSE Time(z) + MinI(z.nsize, UntilEnd(s, z))
           IN ps' = [ps EXCEPT ![p].rd = Deliver(p, s, q, Head(ch[<<q, p>>]), T), ![p].todo = rest]
        /\ ch' = [ch EXCEPT ![<<q, p>>] = Tail(@)]
     \/ \* the dead partner will never send again
        /\ op.o \in {"rcv", "rcv?", "rsz", "rhs"} /\ ch[<<q, p>>] = <<>> /\ ps[q].pc = "err"
        /\ ps' = [ps EXCEPT ![p].todo = <<>>, ![p].pc = "fail"]
        /\ UNCHANGED ch
     \/ /\ op.o = "ssz" /\ Room(p, q)
        /\ ch' = [ch EXCEPT ![<<p, q>>] = Append(@, [k |-> "S", s |-> s, w |-> z.pr])]
        /\ ps' = [ps EXCEPT ![p] = SetSt(p, s, [z EXCEPT !.size = z.pr, !.nsize = 0], rest)]
     \/ /\ op.o = "rsz" /\ ch[<<q, p>>] # <<>>
        /\ ps' = [ps EXCEPT ![p] = SetSt(p, s, [z EXCEPT !.nsize = Head(ch[<<q, p>>]).w], rest)]
        /\ ch' = [ch EXCEPT ![<<q, p>>] = Tail(@)]
     \/ /\ op.o = "isz"
        /\ ps' = [ps EXCEPT ![p] = SetSt(p, s, [z EXCEPT !.size = z.nsize], rest)]
        /\ UNCHANGED ch
     \/ /\ op.o = "ini"
        /\ ps' = [ps EXCEPT ![p] = SetSt(p, s, [z EXCEPT !.wc = Impl(s)], rest)]
        /\ UNCHANGED ch
     \/ /\ op.o = "1st"
        /\ IF AtEnd(s, z)
           THEN ps' = [ps EXCEPT ![p] = SetSt(p, s, [z EXCEPT !.tw = @ + 1, !.comp = FALSE, !.rc = FALSE, !.wc = FALSE],
                                             FirstOps(p, s) \o rest)]
           ELSE ps' = [ps EXCEPT ![p] = SetSt(p, s, [z EXCEPT !.comp = FALSE, !.rc = FALSE, !.wc = FALSE], rest)]
        /\ UNCHANGED ch
     \/ /\ op.o = "2nd"
        /\ ps' = [ps EXCEPT ![p].todo = (IF AtEnd(s, z) THEN SecondOps(p, s) ELSE <<>>) \o rest]
        /\ UNCHANGED ch
     \/ /\ op.o = "dec"
        /\ LET c  == cfg.sch[s]
               nm == Len(c.conv)
               ok == [k \in 1..nm |-> MeasureOK(p, s, k)]
               all == \A k \in 1..nm : ok[k]
               suf == \E k \in 1..nm : ok[k] /\ c.conv[k].suffices
               str == \E k \in 1..nm : ~ok[k] /\ c.conv[k].strict
               meas == nm > 0 /\ z.it >= c.minI /\ (all \/ (suf /\ ~str))
               cv  == meas \/ z.it = c.maxI
               acc == IF cv THEN {} ELSE {i \in InScheme(p, s) : i \in Range(c.acc.ex)}
               okrel == \A i \in acc : RelaxRepresentable(p, s, i, Cur(p, i))
           IN IF str /\ c.maxI > 0 /\ z.it >= c.maxI
              THEN ps' = [ps EXCEPT ![p].todo = <<>>, ![p].pc = "fail"]
              ELSE IF (\E k \in 1..nm : Delicate(p, s, k)) \/ ~okrel
              THEN ps' = [ps EXCEPT ![p].todo = <<>>, ![p].pc = "skip"]
              ELSE ps' = [ps EXCEPT ![p] =
                     [@ EXCEPT !.st[s].conv = cv,
                               !.res = [k \in 1..nm |-> [r |-> Resid(p, c.conv[k].i), n |-> Abs(NewV(p, c.conv[k].i)),
                                                         f |-> FirstRes(p, s, k)]],
                               !.fr = [k \in 1..nm |-> IF cv THEN -1 ELSE FirstRes(p, s, k)],
                               !.wr = [i \in 1..NE |-> IF i \in acc /\ cfg.ex[i].from = p THEN Relax(p, s, i, @[i]) ELSE @[i]],
                               !.rd = [i \in 1..NE |-> IF i \in acc /\ cfg.ex[i].to = p THEN Relax(p, s, i, @[i]) ELSE @[i]],
                               !.todo = rest]]
        /\ UNCHANGED ch
     \/ /\ op.o = "scv" /\ Room(p, q)
        /\ ch' = [ch EXCEPT ![<<p, q>>] = Append(@, [k |-> "C", s |-> s, w |-> z.conv])]
        /\ ps' = [ps EXCEPT ![p].todo = rest]
     \/ /\ op.o = "shs" /\ Room(p, q)
        /\ ch' = [ch EXCEPT ![<<p, q>>] = Append(@, [k |-> "H", s |-> s, w |-> ps[p].rst # {}, g |-> ps[p].gn])]
        /\ ps' = [ps EXCEPT ![p].todo = rest]
     \/ /\ op.o = "rhs" /\ ch[<<q, p>>] # <<>>
        /\ LET m == Head(ch[<<q, p>>])
               both == m.w \/ ps[p].rst # {}
               fresh == both /\ Impl(s)      \* samples of the old meshes are forgotten
           IN ps' = [ps EXCEPT ![p] =
                [@ EXCEPT !.pg = m.g, !.rst = {}, !.dirty = @ \/ both, !.todo = rest,
                          !.wr = [i \in 1..NE |-> IF fresh THEN (IF cfg.ex[i].from = p THEN ZeroOld(@[i]) ELSE ZeroAll(@[i])) ELSE @[i]],
                          !.rd = [i \in 1..NE |-> IF fresh THEN ZeroAll(@[i]) ELSE @[i]],
                          !.pv = [i \in 1..NE |-> IF fresh THEN ZeroAll(@[i]) ELSE @[i]]]]
        /\ ch' = [ch EXCEPT ![<<q, p>>] = Tail(@)]
     \/ /\ op.o = "rcv?" /\ ch[<<q, p>>] # <<>>
        /\ ps' = [ps EXCEPT ![p] = SetSt(p, s, [z EXCEPT !.conv = Head(ch[<<q, p>>]).w], rest)]
        /\ ch' = [ch EXCEPT ![<<q, p>>] = Tail(@)]
     \/ /\ op.o = "mov" \/ (op.o = "mvc" /\ z.conv)
        /\ ps' = [ps EXCEPT ![p] =
             [@ EXCEPT !.wr = [i \in 1..NE |-> IF i \in InScheme(p, s) /\ cfg.ex[i].from = p THEN LastOnly(@[i]) ELSE @[i]],
                       !.rd = [i \in 1..NE |-> IF i \in InScheme(p, s) /\ cfg.ex[i].to = p THEN LastOnly(@[i]) ELSE @[i]],
                       !.pv = [i \in 1..NE |-> IF i \in InScheme(p, s) THEN LastOnly(Cur(p, i)) ELSE @[i]],
                       !.todo = rest]]
        /\ UNCHANGED ch
     \/ /\ op.o = "mvc" /\ ~z.conv
        /\ ps' = [ps EXCEPT ![p].pv = [i \in 1..NE |-> IF i \in InScheme(p, s) THEN Cur(p, i) ELSE @[i]], ![p].todo = rest]
        /\ UNCHANGED ch
     \/ /\ op.o = "nxt"     \* second participant of a serial scheme: data for its next computation
        /\ LET o == Partners(s, p)[1]
               more == IF Impl(s) THEN Ongoing(s, z) \/ ~z.conv ELSE Ongoing(s, z)
               ops == If(FirstMeth(s), <<OpQ("rsz", s, o)>>)
                      \o RcvIf(TRUE, s, p, o, IF Impl(s) /\ ~z.conv THEN "now" ELSE "end")
           IN ps' = [ps EXCEPT ![p].todo = If(more, ops) \o rest]
        /\ UNCHANGED ch
     \/ /\ op.o = "fin"
        /\ IF Impl(s) /\ ~z.conv
           THEN ps' = [ps EXCEPT ![p] =
                  [@ EXCEPT !.st[s] = [z EXCEPT !.rc = TRUE, !.tw = @ - 1, !.it = @ + 1, !.tot = @ + 1,
                                                !.pr = 0, !.comp = FALSE, !.size = z.nsize],
                            !.wr = [i \in 1..NE |-> IF cfg.ex[i].from = p THEN Sel(@[i], LAMBDA x : x.t <= z.ws) ELSE @[i]],
                            !.todo = rest]]
           ELSE ps' = [ps EXCEPT ![p] = SetSt(p, s, [z EXCEPT !.wc = (Impl(s) /\ Ongoing(s, z)), !.comp = TRUE,
                                                     !.it = 1, !.tot = IF Impl(s) THEN @ + 1 ELSE @,
                                                     !.ws = @ + z.pr, !.pr = 0, !.size = z.nsize], rest),
                                  ![p].dirty = FALSE]
        /\ UNCHANGED ch
     \/ /\ op.o = "cmp"    \* composition: explicit schemes run once the implicit one has converged
        /\ LET iterating == Time(St(p, MyImpl(p)[1])) < Time(St(p, MyExpl(p)[1]))
           IN ps' = [ps EXCEPT ![p].todo =
                       IF iterating THEN rest
                       ELSE (IF ps[p].hold THEN FirstOf(MyExpl(p)) ELSE <<>>) \o SecondOf(MyExpl(p)) \o <<Op("rel", s)>> \o rest]
        /\ UNCHANGED ch
     \/ /\ op.o = "rel"
        /\ ps' = [ps EXCEPT ![p].hold = FALSE, ![p].todo = rest]
        /\ UNCHANGED ch

\* -- initialize() -------------------------------------------------------------
StInit(s, p) == [tw |-> 1, it |-> 1, tot |-> 1, ws |-> 0, pr |-> 0,
                 size |-> IF FirstMeth(s) /\ ~IsSecond(s, p) THEN 0 ELSE cfg.sch[s].size,
                 nsize |-> IF FirstMeth(s) /\ ~IsSecond(s, p) THEN 0 ELSE cfg.sch[s].size,
                 comp |-> FALSE, conv |-> FALSE, wc |-> FALSE, rc |-> FALSE]

PInit(p) == [pc |-> "new", todo |-> <<>>, hold |-> FALSE, w |-> <<>>, dt |-> 0, rq |-> <<>>,
             st |-> [s \in 1..NS |-> StInit(s, p)],
             rd |-> [i \in 1..NE |-> S1(0, Zero)], wr |-> [i \in 1..NE |-> S1(0, Zero)],
             pv |-> [i \in 1..NE |-> S1(0, Zero)],
             gn |-> <<0, 0>>, pg |-> <<0, 0>>, rst |-> {}, dirty |-> FALSE, ask |-> FALSE,
             fr |-> [k \in 1..4 |-> -1], res |-> <<>>, wn |-> 0, lw |-> [i \in 1..NE |-> Zero]]

(* w: sequence aligned with WList(p) of values (pairs) or the initial ones *)
WList(p) == \* exchanges whose data name is written: one entry per data name (first exchange using it)
  IdxSeq(LAMBDA i : cfg.ex[i].from = p /\ \A j \in 1..(i - 1) : cfg.ex[j].d # cfg.ex[i].d, NE)
ValFor(p, i) == LET l == WList(p)
                    k == CHOOSE k \in 1..Len(l) : cfg.ex[l[k]].d = cfg.ex[i].d
                IN ps[p].w[k]
(* Initial values are written for data that is sent initially to every receiver;
   the messages of a scheme to one partner carry all its data as soon as one is declared. *)
InitWritable(p, i) == \A j \in 1..NE : cfg.ex[j].from = p /\ cfg.ex[j].d = cfg.ex[i].d =>
                        AnyInit(Out(p, cfg.ex[j].s, cfg.ex[j].to))

StartInit(p) ==
  /\ ps[p].pc = "new" /\ Len(ps[p].w) = Len(WList(p))
  /\ ps' = [ps EXCEPT ![p].pc = "busy",
                      ![p].wr = [i \in 1..NE |-> IF cfg.ex[i].from = p THEN S1(0, ValFor(p, i)) ELSE S1(0, Zero)],
                      ![p].pv = [i \in 1..NE |-> IF cfg.ex[i].from = p THEN S1(0, ValFor(p, i)) ELSE S1(0, Zero)],
                      ![p].lw = [i \in 1..NE |-> IF cfg.ex[i].from = p THEN ValFor(p, i) ELSE Zero],
                      ![p].todo = Flat(LAMBDA s : InitOps(p, s), MySchemes(p))]
  /\ UNCHANGED <<cfg, ch, gen>>
  /\ Note(p, [op |-> "init", ri |-> RequiresInit(p), w |-> ps[p].w])

\* -- advance() ----------------------------------------------------------------
StartAdvance(p) ==
  /\ ps[p].pc = "idle" /\ POngoing(p) /\ ps[p].dt > 0 /\ Len(ps[p].w) = Len(WList(p))
  /\ LET dt == ps[p].dt
         act == Range(ActiveS(p))
         now == PTime(p) + dt
         st1 == [s \in 1..NS |-> IF s \in act THEN [St(p, s) EXCEPT !.pr = @ + dt] ELSE St(p, s)]
         im  == MyImpl(p)
         iend == im # <<>> /\ AtEnd(im[1], st1[im[1]])
         comp == im # <<>> /\ MyExpl(p) # <<>>
         hold == comp /\ (ps[p].hold \/ iend)
         end == \A s \in act : AtEnd(s, st1[s])
         o   == Partners(Lead(p), p)[1]
         hs  == IF RM /\ end THEN <<OpQ("shs", Lead(p), o), OpQ("rhs", Lead(p), o)>> ELSE <<>>
         early == RM /\ ~end /\ ps[p].rst # {}     \* the step after a redefinition has to reach the end of the window
         ops == hs \o IF ~comp THEN FirstOf(MySchemes(p)) \o SecondOf(MySchemes(p))
                ELSE FirstOf(im) \o (IF hold THEN <<>> ELSE FirstOf(MyExpl(p))) \o SecondOf(im) \o <<Op("cmp", im[1])>>
     IN ps' = [ps EXCEPT ![p] =
          [@ EXCEPT !.pc = IF early THEN "fail" ELSE "busy", !.st = st1, !.hold = hold, !.todo = ops, !.dt = 0, !.w = <<>>,
                    !.lw = [i \in 1..NE |-> IF cfg.ex[i].from = p THEN ValFor(p, i) ELSE @[i]],
                    !.wr = [i \in 1..NE |-> IF cfg.ex[i].from = p
                                            THEN @[i] \o S1(now, ValFor(p, i)) ELSE @[i]]]]
  /\ UNCHANGED <<cfg, ch, gen>>
  /\ Note(p, [op |-> "adv", dt |-> ps[p].dt, w |-> ps[p].w])

\* -- the call returns -----------------------------------------------------------
Return(p) ==
  /\ ps[p].pc = "busy" /\ ps[p].todo = <<>>
  /\ ps' = [ps EXCEPT ![p].pc = "look", ![p].w = <<>>, ![p].rq = <<>>, ![p].ask = RM]
  /\ UNCHANGED <<cfg, ch, gen>>
  /\ Note(p, [op |-> "ret", obs |-> Obs(p), res |-> ps[p].res, pg |-> ps[p].pg, dirty |-> ps[p].dirty,
              its |-> [k \in 1..Len(MyImpl(p)) |-> LET z == St(p, MyImpl(p)[k]) IN [tw |-> z.tw, it |-> z.it, tot |-> z.tot]],
              last |-> [i \in 1..NE |-> LastOf(Cur(p, i)).v],
              now |-> [i \in 1..NE |-> Sample(Cur(p, i), PTime(p), Deg(i))]])

Failed(p) ==
  /\ ps[p].pc = "fail"
  /\ ps' = [ps EXCEPT ![p].pc = "err"]
  /\ UNCHANGED <<cfg, ch, gen>>
  /\ Note(p, [op |-> "err"])

\* -- reads at some times of the current window -----------------------------------
ReadsDone(p) == ps[p].pc = "look"
ReadValues(p, r) ==
  LET l == InAll(p) IN [k \in 1..Len(l) |-> Sample(ps[p].rd[l[k]], PTime(p) + r, Deg(l[k]))]

ReadAt(p, r) ==
  /\ Note(p, [op |-> "read", rel |-> r, v |-> ReadValues(p, r)])
  /\ UNCHANGED <<cfg, ch, gen>>

Finish(p) ==
  /\ ps[p].pc = "idle" /\ ~POngoing(p)
  /\ ps' = [ps EXCEPT ![p].pc = "done"]
  /\ UNCHANGED <<cfg, ch, gen>>
  /\ Note(p, [op |-> "fin", t |-> PTime(p)])

Ended(p) == ps[p].pc \in {"done", "err"}
=============================================================================
