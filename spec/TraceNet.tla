------------------------------ MODULE TraceNet ------------------------------
(***************************************************************************)
(* Trace validation of layers, layer records, networks and network files.  *)
(* Every line of the trace file is one history of calls of the real        *)
(* library; each event carries the arguments, the reply and everything     *)
(* observable afterwards.  The model state (module RustyNetwork) is        *)
(* advanced by the specification; an event conforms when reply and         *)
(* observation are those of the successor state.  Where the specification  *)
(* leaves a choice (value of a boundary before the first inference, ties   *)
(* in pooling gradients, rounding) the observed value is checked for       *)
(* admissibility and adopted.  A non-conforming event ends its history.    *)
(***************************************************************************)
EXTENDS RustyNetwork, Json, IOUtils

CONSTANT FOCUS
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, st, fail
vars == << t, l, st, fail >>

NoFun == [x \in {} |-> 0]
\* memo: opaque traces: <<key, boundary values>> of every inference; seen: keys of calls that
\* conformed; ld, nld: layers (networks) a record (a file) was loaded into, or refused by; rf: layers
\* that were (to be) re-filled; er: layers that refused a forward or backward call
Start == [lay |-> NoFun, nets |-> NoFun, recs |-> NoFun, files |-> NoFun, memo |-> {},
          seen |-> {}, ld |-> {}, nld |-> {}, rf |-> {}, er |-> {}, nre |-> {}, are |-> {}, bk |-> {}]
Put(f, k, v) == (k :> v) @@ f
Drop(f, k)   == [x \in DOMAIN f \ {k} |-> f[x]]

R(s, b) == [st |-> s, bad |-> b]

KindProp(k) == CASE k = "fc" -> {"C12"} [] k = "conv" -> {"C13"} [] k = "pool" -> {"C09"} [] k = "user" -> {"C19"} [] OTHER -> {"C11"}
FwdProp(k)  == CASE k = "pool" -> {"C08", "C09"} [] k = "softmax" -> {"C10", "C11"} [] k = "user" -> {"C18"} [] OTHER -> KindProp(k)

----------------------------------------------------------------------------
(* Comparing a layer with its observation: the set of aspects that differ *)

LDiff(L, o, hk) ==
  (IF o.kind # L.kind \/ o.name # L.name
      \/ (o.po /\ (o.rname # L.name \/ o.p # L.p \/ o.st # L.st \/ o.win # L.win))
   THEN {"par"} ELSE {})
  \cup (IF o.in # L.in \/ o.out # L.out THEN {"shape"} ELSE {})
  \cup (IF o.mode # L.mode THEN {"mode"} ELSE {})
  \cup (IF hk /\ L.mode = "trn" /\ o.mode = "trn" /\ ~NearSeq(o.g, L.g, TOLG) THEN {"grad"} ELSE {})

\* translate aspects to properties: a call attributes each aspect to the properties given
Attr(d, par, shape, mode, grad) ==
  (IF "par" \in d THEN par ELSE {}) \cup (IF "shape" \in d THEN shape ELSE {})
  \cup (IF "mode" \in d THEN mode ELSE {}) \cup (IF "grad" \in d THEN grad ELSE {})
Same(L, o, hk, more) == Attr(LDiff(L, o, hk), {"C25"} \cup more, {"C25"} \cup more, {"C17"} \cup more, {"C14"} \cup more)

\* gradients that are only near the specified ones are adopted as observed
Adopt(L, o, hk) == IF hk /\ TOLG > 0 /\ L.mode = "trn" /\ o.mode = "trn" THEN [L EXCEPT !.g = o.g] ELSE L

NDiff(nt, o, hk) ==
  LET n == Len(nt.ls)
  IN  (IF o.rs # nt.rs THEN {"C17"} ELSE {})
      \cup (IF o.in # nt.in \/ o.out # nt.out \/ Len(o.ls) # n THEN {"C16"} ELSE {})
      \cup (IF Len(o.st) # Len(nt.st) \/ ~o.far THEN {"C16"} ELSE {})
      \cup (IF o.ook # (n > 0) THEN {"C18"} ELSE {})
      \cup (IF o.ook /\ Len(o.st) > 0 /\ o.output # o.st[Len(o.st)] THEN {"C18"} ELSE {})
      \cup (IF Len(o.ls) = n
            THEN UNION { Attr(LDiff(nt.ls[m], o.ls[m], hk), {"C25"}, {"C16"}, {"C17"}, {"C14"}) : m \in 1..n }
            ELSE {})
StShapesOK(nt, o) == /\ Len(o.st) = Len(nt.st)
                     /\ \A m \in 1..Len(nt.st) : o.st[m].s = nt.st[m].s
StDiff(nt, o) == IF o.st # nt.st THEN {"C18"} ELSE {}
\* nothing about the network may have changed
NSame(nt, o, hk, more) == LET d == NDiff(nt, o, hk) \cup StDiff(nt, o) IN IF d = {} THEN {} ELSE d \cup more
AdoptNet(nt, o, hk) == [nt EXCEPT !.ls = [m \in 1..Len(nt.ls) |-> Adopt(nt.ls[m], o.ls[m], hk)]]

\* a value was observed that is no number of its unit
BAD == 2000000001
HasBad(ts) == \E n \in 1..Len(ts) : \E m \in 1..Len(ts[n].d) : ts[n].d[m] = BAD

----------------------------------------------------------------------------
(* Layer objects *)

LMake(s, e, hk) ==
  LET ok == ArgsOK(e.args)
  IN  IF e.ret # (IF ok THEN "ok" ELSE "err") \/ e.bad THEN R(s, {"C15"})
      ELSE IF ~ok THEN R([s EXCEPT !.lay = Drop(@, e.o)], {})
      ELSE LET L == MakeLayer(e.args, e.obs.mode)
           IN  R([s EXCEPT !.lay = Put(@, e.o, L)],
                 \* parameters are observed through the layer's record: the record may be what is wrong
                 Attr(LDiff(L, e.obs, hk), {"C15", "C25", "C24", "C21"}, {"C15"}, {"C17"}, {"C14"}))

\* an empty layer is whatever it is: the observation is adopted
LEmpty(s, e, hk) ==
  IF e.ret # "ok" \/ e.bad THEN R(s, {"C15", "C24"})
  ELSE LET o == e.obs
           L == [kind |-> o.kind, name |-> o.name, mode |-> o.mode, in |-> o.in, out |-> o.out,
                 p |-> o.p, st |-> o.st, win |-> o.win, g |-> o.g, mem |-> NoMem, fresh |-> FALSE]
       IN  R([s EXCEPT !.lay = Put(@, e.o, L)], {})

LFill(s, e, hk) ==
  LET L == s.lay[e.o]
      ok == ArgsOK(e.args)
  IN  IF e.ret # (IF ok THEN "ok" ELSE "err") \/ e.bad THEN R(s, {"C15"})
      ELSE IF ~ok THEN R(s, Same(L, e.obs, hk, {"C15"}))
      ELSE LET N == MakeLayer(e.args, L.mode)
           IN  R([s EXCEPT !.lay = Put(@, e.o, N)],
                 Attr(LDiff(N, e.obs, hk), {"C15", "C25"}, {"C15"}, {"C17"}, {"C14", "C15"}))

LSet(s, e, hk) ==
  LET N == SetAll(s.lay[e.o], e.m, e.v)
  IN  IF e.ret # "ok" \/ e.bad THEN R(s, {"C15", "C25"})
      ELSE R([s EXCEPT !.lay = Put(@, e.o, N)], Attr(LDiff(N, e.obs, hk), {"C15", "C25"}, {"C15", "C25"}, {"C17"}, {"C14"}))

\* some element that should have been computed still holds what the caller passed in
Untouched(y, y0, f) == \/ y.s # f.s
                       \/ \E n \in 1..Len(y.d) : y.d[n] = y0.d[n] /\ ~Near(y.d[n], f.d[n], TOLF)

LFwd(s, e, hk) ==
  LET L == s.lay[e.o]
  IN  IF ~FwdShapesOK(L, e.x, e.y0)
      THEN R(s, IF e.ret # "err" \/ e.bad \/ e.y # e.y0 THEN {"C20"}
                ELSE Same(L, e.obs, hk, {"C20"}) \cup (IF e.cu THEN {} ELSE {"C25"}))
      ELSE IF e.ret # "ok" THEN R(s, {"C15"} \cup FwdProp(L.kind) \cup (IF e.ret = "panic" THEN {"C17"} ELSE {}))
      ELSE IF e.bad THEN R(s, FwdProp(L.kind) \cup {"C15"})
      ELSE IF ~ForwardValueOK(L, e.x, e.y)
           THEN R(s, FwdProp(L.kind) \cup {"C04"}
                     \cup (IF Untouched(e.y, e.y0, LayerFun(L, e.x)) THEN {"C15", "C20"} ELSE {}))
      ELSE LET N == AfterForward(L, e.x)
           IN  R([s EXCEPT !.lay = Put(@, e.o, Adopt(N, e.obs, hk))],
                 Same(N, e.obs, hk, {}) \cup (IF e.cu THEN {} ELSE {"C25"}))

LBwd(s, e, hk) ==
  LET L == s.lay[e.o]
      sh == BwdShapesOK(L, e.x, e.y, e.g, e.gx0)
  IN  IF L.mode = "inf" \/ ~sh
      THEN LET own == (IF L.mode = "inf" THEN {"C17"} ELSE {}) \cup (IF sh THEN {} ELSE {"C20"})
           IN  R(s, IF e.ret # "err" \/ e.bad \/ e.gx # e.gx0 THEN own
                    ELSE Same(L, e.obs, hk, own) \cup (IF e.cu THEN {} ELSE {"C25"}))
      ELSE IF ~L.fresh
      \* no forward pass in this training session yet: only "no panic, parameters kept" is specified
      THEN IF e.ret = "panic" THEN R(s, {"C17", "C20"})
           ELSE IF e.bad THEN R(s, KindProp(L.kind))
           ELSE LET N == IF hk THEN [L EXCEPT !.g = e.obs.g] ELSE L
                IN  R([s EXCEPT !.lay = Put(@, e.o, N)], Same(N, e.obs, hk, {}))
      ELSE IF e.ret # "ok" THEN R(s, KindProp(L.kind) \cup {"C17"})
      ELSE IF e.bad THEN R(s, KindProp(L.kind) \cup (IF HasBad(e.obs.g) THEN {"C14"} ELSE {}))
      ELSE IF ~InputGradOK(L, e.x, e.y, e.g, e.gx) THEN R(s, KindProp(L.kind) \cup (IF e.gx = e.gx0 THEN {"C20"} ELSE {}))
      \* (without the hooks parameter gradients cannot be observed, and are not computed)
      ELSE LET N == IF hk THEN [L EXCEPT !.g = ParamGradAfter(L, e.x, e.g)] ELSE L
           IN  R([s EXCEPT !.lay = Put(@, e.o, Adopt(N, e.obs, hk))],
                 Attr(LDiff(N, e.obs, hk), {"C25"}, {"C25"}, {"C17"}, KindProp(L.kind) \cup {"C14"})
                 \cup (IF e.cu THEN {} ELSE {"C25"}))

\* Opaque traces: arbitrary floats (denormals, infinities, NaN).  Nothing is computed; what is
\* specified are shapes, replies, modes, parameters bit by bit, and that results repeat.
MemQ(L, x, y) == CASE L.kind \in {"fc","conv"} -> Mask(y, 1) [] L.kind = "pool" -> x [] OTHER -> NoMem
FwdQ(L, x, y) == IF L.mode = "trn" THEN [L EXCEPT !.mem = MemQ(L, x, y), !.fresh = TRUE] ELSE L
Differs(s, key, v) == \E m \in s.memo : m[1] = key /\ m[2] # v
GradShapesOK(L, o) == /\ Len(o.g) = Len(ZeroGrads(L.p, L.mode))
                      /\ \A n \in 1..Len(o.g) : o.g[n].s = L.p[n].s
LFwdQ(s, e, hk) ==
  LET L == s.lay[e.o]
      key == << "l", Record(L), L.mode, e.x >>
  IN  IF ~FwdShapesOK(L, e.x, e.y0) THEN LFwd(s, e, hk)
      ELSE IF e.ret # "ok" \/ e.bad \/ e.y.s # L.out THEN R(s, {"C15"} \cup FwdProp(L.kind))
      ELSE LET N == FwdQ(L, e.x, e.y)
           IN  R([s EXCEPT !.lay = Put(@, e.o, N), !.memo = @ \cup {<< key, e.y >>}],
                 Same(N, e.obs, hk, {}) \cup (IF Differs(s, key, e.y) THEN {"C26"} ELSE {}))
LBwdQ(s, e, hk) ==
  LET L == s.lay[e.o]
      key == << "b", Record(L), L.mem, e.x, e.y, e.g, L.g >>
      val == << e.gx, e.obs.g >>
  IN  IF L.mode = "inf" \/ ~BwdShapesOK(L, e.x, e.y, e.g, e.gx0) \/ ~L.fresh \/ ~hk THEN LBwd(s, e, hk)
      ELSE IF e.ret # "ok" THEN R(s, KindProp(L.kind) \cup {"C17"})
      ELSE IF ~GradShapesOK(L, e.obs) THEN R(s, {"C14"})
      ELSE LET N == [L EXCEPT !.g = e.obs.g]
           IN  R([s EXCEPT !.lay = Put(@, e.o, N), !.memo = @ \cup {<< key, val >>}],
                 Same(N, e.obs, hk, {}) \cup (IF Differs(s, key, val) THEN {"C26"} ELSE {}))

LChange(s, e, hk) ==
  LET L == s.lay[e.o]
      N == CASE e.op = "lclear" -> ClearGrads(L)
             [] e.op = "ltrain" -> Switch(L, "trn")
             [] e.op = "linf"   -> Switch(L, "inf")
  IN  IF e.ret # "ok" THEN R(s, IF e.op = "lclear" THEN {"C14"} ELSE {"C17"})
      ELSE LET d == Same(N, e.obs, hk, {})
           IN  R([s EXCEPT !.lay = Put(@, e.o, N)],
                 IF e.bad /\ d = {} THEN (IF e.op = "lclear" THEN {"C14"} ELSE {"C17"}) ELSE d)

LModes(s, e, hk) ==
  LET L == MakeLayer(e.args, "inf")
      y == LayerFun(L, e.x)
  IN  R(s, IF e.ret # "ok" \/ e.bad \/ ~NearT(e.ya, y, Slack(L, e.x)) \/ ~NearT(e.yb, y, Slack(L, e.x))
              \/ (TOLF = 0 /\ e.ya # e.yb)
           THEN {"C04"} \cup FwdProp(L.kind) ELSE {})

----------------------------------------------------------------------------
(* Records: [kind, ok, r] *)

LSave(s, e, hk) ==
  LET L == s.lay[e.o]
  IN  IF e.ret # "ok" \/ e.bad THEN R(s, {"C24"})
      ELSE R([s EXCEPT !.recs = Put(@, e.f, [kind |-> L.kind, ok |-> TRUE, r |-> Record(L)])],
             Same(L, e.obs, hk, {}))
LRaw(s, e, hk) ==
  LET ok == ArgsOK(e.args)
  IN  R([s EXCEPT !.recs = Put(@, e.f, [kind |-> e.args.kind, ok |-> ok,
                                         r |-> IF ok THEN Record(MakeLayer(e.args, "inf")) ELSE << >>])], {})
LDamage(s, e, hk) == R([s EXCEPT !.recs = Put(@, e.f, [@[e.f] EXCEPT !.ok = FALSE])], {})

LLoad(s, e, hk) ==
  LET L == s.lay[e.o]
      f == s.recs[e.f]
      ok == f.ok /\ f.kind = L.kind
  IN  IF e.ret # (IF ok THEN "ok" ELSE "err") \/ e.bad
      THEN R(s, IF ok THEN {"C24"} ELSE {"C24", "C22"})
      ELSE IF ~ok THEN R(s, Same(L, e.obs, hk, {"C24"}))
      ELSE LET N == FromRecord(f.r, L.mode)
           IN  R([s EXCEPT !.lay = Put(@, e.o, N)],
                 Attr(LDiff(N, e.obs, hk), {"C24", "C21"}, {"C24", "C21"}, {"C24", "C17"}, {"C24", "C14"}))
\* a record with altered tensor bytes: refused, or it describes a layer that works
LMut(s, e, hk) ==
  LET L == s.lay[e.o]
  IN  IF e.ret = "panic" \/ e.bad THEN R(s, {"C24", "C22"})
      ELSE IF e.ret = "err" THEN R(s, Same(L, e.obs, hk, {"C24"}))
      ELSE R([s EXCEPT !.lay = Drop(@, e.o)], IF e.works THEN {} ELSE {"C24", "C22"})

----------------------------------------------------------------------------
(* Networks *)

NNew(s, e, hk) ==
  LET nt == NewNet(e.mode)
  IN  IF e.ret # "ok" \/ e.bad THEN R(s, {"C16"})
      ELSE LET d == NDiff(nt, e.obs, hk) \cup StDiff(nt, e.obs)
           \* a new network that is not empty, or not in the mode asked for: what came before shows
           IN  R([s EXCEPT !.nets = Put(@, e.n, nt)], IF d = {} THEN {} ELSE d \cup {"C16", "C26"})

NAdd(s, e, hk) ==
  LET nt == s.nets[e.n]
      L  == s.lay[e.o]
      ok == CanAdd(nt, L)
      s2 == [s EXCEPT !.lay = Drop(@, e.o)]
  IN  IF e.ret # (IF ok THEN "ok" ELSE "err") \/ e.bad THEN R(s, {"C16"})
      ELSE IF ~ok THEN R(s2, NSame(nt, e.obs, hk, {"C16"}))
      ELSE LET nb == NewBoundaries(nt, L)
               k  == Len(nt.st)
               vals == [m \in 1..Len(nb) |-> IF k + m <= Len(e.obs.st) THEN e.obs.st[k+m] ELSE Zero(nb[m])]
               N  == NetAdd(nt, L, vals)
           IN  R([s2 EXCEPT !.nets = Put(@, e.n, N)],
                 NDiff(N, e.obs, hk) \cup StDiff(N, e.obs)
                 \cup (IF \E m \in 1..Len(nb) : vals[m].s # nb[m] THEN {"C16"} ELSE {}))

\* many layers at once, made from descriptions in turn
NAdds(s, e, hk) ==
  LET nt == s.nets[e.n]
      c  == Len(e.as)
      one == [m \in 1..c |-> MakeLayer(e.as[m], "inf")]
      Ls == [m \in 1..e.k |-> one[((m - 1) % c) + 1]]
      ok == (\A m \in 1..c : ArgsOK(e.as[m])) /\ CanAddAll(nt, Ls)
      nb == (IF nt.ls = << >> THEN << Ls[1].in >> ELSE << >>) \o [m \in 1..e.k |-> Ls[m].out]
      k  == Len(nt.st)
      vals == [m \in 1..Len(nb) |-> IF k + m <= Len(e.obs.st) THEN e.obs.st[k+m] ELSE Zero(nb[m])]
      N  == NetAddAll(nt, Ls, vals)
  IN  IF e.ret # (IF ok THEN "ok" ELSE "err") \/ e.bad THEN R(s, {"C16"})
      ELSE IF ~ok THEN R(s, {})
      ELSE R([s EXCEPT !.nets = Put(@, e.n, N)],
             NDiff(N, e.obs, hk) \cup StDiff(N, e.obs)
             \cup (IF \E m \in 1..Len(nb) : vals[m].s # nb[m] THEN {"C16"} ELSE {}))

NMode(s, e, hk) ==
  LET N == NetSwitch(s.nets[e.n], IF e.op = "ntrain" THEN "trn" ELSE "inf")
  IN  IF e.ret # "ok" \/ e.bad THEN R(s, {"C17"})
      ELSE IF ~StShapesOK(N, e.obs) THEN R(s, {"C16"})
      ELSE R([s EXCEPT !.nets = Put(@, e.n, [N EXCEPT !.st = e.obs.st])], NDiff(N, e.obs, hk))

NInfer(s, e, hk, opq) ==
  LET nt == s.nets[e.n]
      ok == CanInfer(nt, e.x)
  IN  IF ok /\ ~opq /\ InferRefused(nt, e.x)
      \* a layer refuses: so does the network; what it leaves at its boundaries is open
      THEN IF e.ret # "err" \/ e.bad THEN R(s, {"C18"})
           ELSE IF ~StShapesOK(nt, e.obs) THEN R(s, {"C16", "C18"})
           ELSE LET N == [Unfresh(nt) EXCEPT !.st = e.obs.st]
                IN  R([s EXCEPT !.nets = Put(@, e.n, N)], NDiff(N, e.obs, hk) \cup (IF e.cu THEN {} ELSE {"C25"}))
      ELSE IF e.ret # (IF ok THEN "ok" ELSE "err") \/ e.bad THEN R(s, {"C18"})
      ELSE IF ~ok THEN R(s, NSame(nt, e.obs, hk, {"C18"}) \cup (IF e.cu THEN {} ELSE {"C25"}))
      ELSE LET vals == e.obs.st
               key  == << [m \in 1..Len(nt.ls) |-> Record(nt.ls[m])], nt.rs, e.x >>
               shape == /\ Len(vals) = Len(nt.ls) + 1 /\ vals[1] = e.x
                        /\ \A m \in 1..Len(nt.ls) : vals[m+1].s = nt.ls[m].out
               good == shape /\ (opq \/ InferValuesOK(nt, e.x, vals))
               seen == { v \in s.memo : v[1] = key }
               N    == IF opq THEN [nt EXCEPT !.st = vals, !.ls = [m \in 1..Len(nt.ls) |-> FwdQ(nt.ls[m], vals[m], vals[m+1])]]
                       ELSE NetInfer(nt, e.x, vals)
           IN  IF ~good THEN R(s, {"C18"} \cup (IF Len(e.obs.st) # Len(nt.st) THEN {"C16"} ELSE {}))
               ELSE R([s EXCEPT !.nets = Put(@, e.n, AdoptNet(N, e.obs, hk)),
                                !.memo = IF opq THEN @ \cup {<< key, vals >>} ELSE @],
                      NDiff(N, e.obs, hk) \cup (IF e.cu THEN {} ELSE {"C25"})
                      \cup (IF opq /\ \E v \in seen : v[2] # vals THEN {"C26", "C21"} ELSE {}))

\* the last pass was repeated many times, each from cleared gradients: it gave the same each time
NRep(s, e, hk) ==
  IF e.ret # "ok" \/ e.bad \/ ~e.same THEN R(s, {"C26"}) ELSE R(s, NSame(s.nets[e.n], e.obs, hk, {"C26"}))

NBack(s, e, hk, opq) ==
  LET nt == s.nets[e.n]
      ok == CanBackward(nt, e.g)
      all == \A m \in 1..Len(nt.ls) : nt.ls[m].fresh
  IN  IF ~ok
      THEN LET own == {"C19"} \cup (IF nt.rs = "inf" THEN {"C17"} ELSE {})
           IN  IF e.ret # "err" \/ e.bad THEN R(s, own)
               ELSE R(s, NSame(nt, e.obs, hk, own) \cup (IF e.cu THEN {} ELSE {"C25"}))
      ELSE IF e.ret = "panic" THEN R(s, {"C17", "C19"})
      ELSE IF ~opq /\ all /\ BackRefused(nt, e.g)
      \* a layer refuses: so does the network; which layers accumulated their gradients is open
      THEN IF e.ret # "err" \/ e.bad THEN R(s, {"C19"})
           ELSE LET N == IF hk /\ Len(e.obs.ls) = Len(nt.ls)
                         THEN NetBackward(nt, [m \in 1..Len(nt.ls) |-> e.obs.ls[m].g]) ELSE nt
                IN  R([s EXCEPT !.nets = Put(@, e.n, N)],
                      (IF hk /\ \E m \in 1..Len(N.ls) : ~GradShapesOK(nt.ls[m], N.ls[m]) THEN {"C14"} ELSE {})
                      \cup NDiff(N, e.obs, hk) \cup StDiff(N, e.obs) \cup (IF e.cu THEN {} ELSE {"C25"}))
      ELSE IF e.bad THEN R(s, {"C19"} \cup (IF \E m \in 1..Len(e.obs.ls) : HasBad(e.obs.ls[m].g) THEN {"C14"} ELSE {}))
      ELSE IF opq \/ ~all \/ Len(e.obs.ls) # Len(nt.ls)
      THEN LET N == IF hk /\ Len(e.obs.ls) = Len(nt.ls)
                    THEN NetBackward(nt, [m \in 1..Len(nt.ls) |-> e.obs.ls[m].g]) ELSE nt
               rec  == opq /\ hk /\ all /\ e.ret = "ok" /\ Len(e.obs.ls) = Len(nt.ls)
               key  == << "B", [m \in 1..Len(nt.ls) |-> << Record(nt.ls[m]), nt.ls[m].mem, nt.ls[m].g >>], nt.st, e.g >>
               val  == << e.obs.ig, [m \in 1..Len(e.obs.ls) |-> e.obs.ls[m].g] >>
           IN  R([s EXCEPT !.nets = Put(@, e.n, N), !.memo = IF rec THEN @ \cup {<< key, val >>} ELSE @],
                 (IF rec /\ Differs(s, key, val) THEN {"C26"} ELSE {}) \cup
                 (IF opq /\ hk /\ \E m \in 1..Len(N.ls) : ~GradShapesOK(nt.ls[m], N.ls[m]) THEN {"C14"} ELSE {}) \cup
                 (IF opq /\ all /\ e.ret # "ok" THEN {"C17", "C19"} ELSE {}) \cup
                 (IF opq THEN {} ELSE IF hk /\ e.ret = "ok" /\ ~BoundaryGradsOK(nt, e.g, e.obs.ig) THEN {"C19"} ELSE {})
                 \cup NDiff(N, e.obs, hk) \cup StDiff(N, e.obs) \cup (IF e.cu THEN {} ELSE {"C25"}))
      ELSE IF e.ret # "ok" THEN R(s, {"C17", "C19"})
      ELSE IF ~hk THEN R(s, NDiff(nt, e.obs, FALSE) \cup StDiff(nt, e.obs) \cup (IF e.cu THEN {} ELSE {"C25"}))
      ELSE IF ~BoundaryGradsOK(nt, e.g, e.obs.ig) THEN R(s, {"C19"})
      ELSE LET N == NetBackward(nt, [m \in 1..Len(nt.ls) |-> LayerGradsAfter(nt, m, e.obs.ig)])
               off == { m \in 1..Len(nt.ls) : "grad" \in LDiff(N.ls[m], e.obs.ls[m], hk) }
           IN  R([s EXCEPT !.nets = Put(@, e.n, AdoptNet(N, e.obs, hk))],
                 (IF off = {} THEN {} ELSE {"C19"} \cup UNION { KindProp(nt.ls[m].kind) : m \in off })
                 \cup NDiff(N, e.obs, hk) \cup StDiff(N, e.obs) \cup (IF e.cu THEN {} ELSE {"C25"}))

----------------------------------------------------------------------------
(* Files *)

FileOf(s, f) == IF f \in DOMAIN s.files THEN s.files[f] ELSE Missing
NSave(s, e, hk) ==
  LET nt == s.nets[e.n]
  IN  IF e.ret # "ok" \/ e.bad THEN R(s, {"C21"})
      ELSE R([s EXCEPT !.files = Put(@, e.f, SavedAs(nt))], NSame(nt, e.obs, hk, {"C21"}))
\* saving where nothing can be written: an error, and nothing changed
NSaveFail(s, e, hk) ==
  IF e.ret # "err" \/ e.bad THEN R(s, {"C21"}) ELSE R(s, NSame(s.nets[e.n], e.obs, hk, {"C21"}))
\* SerializedLayer::add_to_network
NRec(s, e, hk) ==
  LET nt == s.nets[e.n]
      f  == s.recs[e.f]
      ok == f.ok /\ (nt.ls = << >> \/ f.r.in = nt.out)
  IN  IF e.ret # (IF ok THEN "ok" ELSE "err") \/ e.bad
      THEN R(s, IF f.ok THEN {"C16", "C21", "C24"} ELSE {"C22", "C24"})
      ELSE IF ~ok THEN R(s, NSame(nt, e.obs, hk, {"C16", "C22"}))
      ELSE LET one == [ok |-> TRUE, rs |-> << f.r >>]
               nb == LoadBoundaries(nt, one)
               k  == Len(nt.st)
               vals == [m \in 1..Len(nb) |-> IF k + m <= Len(e.obs.st) THEN e.obs.st[k+m] ELSE Zero(nb[m])]
               N  == NetLoad(nt, one, vals)
               d  == NDiff(N, e.obs, hk) \cup StDiff(N, e.obs)
                     \cup (IF \E m \in 1..Len(nb) : vals[m].s # nb[m] THEN {"C16"} ELSE {})
           IN  R([s EXCEPT !.nets = Put(@, e.n, N)], IF d = {} THEN {} ELSE d \cup {"C21", "C24"})
NLoad(s, e, hk) ==
  LET nt == s.nets[e.n]
      f  == FileOf(s, e.f)
      ok == CanLoad(nt, f)
  IN  IF e.ret # (IF ok THEN "ok" ELSE "err") \/ e.bad
      THEN R(s, IF f.ok /\ RecordsChain(f.rs) THEN {"C21"} ELSE {"C22"})
      ELSE IF ~ok THEN R(s, NSame(nt, e.obs, hk, {"C22"}))
      ELSE LET nb == LoadBoundaries(nt, f)
               k  == Len(nt.st)
               vals == [m \in 1..Len(nb) |-> IF k + m <= Len(e.obs.st) THEN e.obs.st[k+m] ELSE Zero(nb[m])]
               N  == NetLoad(nt, f, vals)
               d  == NDiff(N, e.obs, hk) \cup StDiff(N, e.obs)
                     \cup (IF \E m \in 1..Len(nb) : vals[m].s # nb[m] THEN {"C16"} ELSE {})
           IN  R([s EXCEPT !.nets = Put(@, e.n, N)], IF d = {} THEN {} ELSE d \cup {"C21"})
FCompose(s, e, hk) ==
  LET ok == \A n \in 1..Len(e.items) : e.items[n].good /\ ArgsOK(e.items[n].args)
      f  == IF ok THEN [ok |-> TRUE, rs |-> [n \in 1..Len(e.items) |-> Record(MakeLayer(e.items[n].args, "inf"))]]
            ELSE Torn
  IN  R([s EXCEPT !.files = Put(@, e.f, f)], {})

Plain(s, e, hk, opq) ==
  CASE e.op = "lmake"  -> LMake(s, e, hk)
    [] e.op = "lempty" -> LEmpty(s, e, hk)
    [] e.op = "lfill"  -> LFill(s, e, hk)
    [] e.op = "lset"   -> LSet(s, e, hk)
    [] e.op = "lfwd"   -> IF opq THEN LFwdQ(s, e, hk) ELSE LFwd(s, e, hk)
    [] e.op = "lbwd"   -> IF opq THEN LBwdQ(s, e, hk) ELSE LBwd(s, e, hk)
    [] e.op \in {"lclear", "ltrain", "linf"} -> LChange(s, e, hk)
    [] e.op = "lmodes" -> LModes(s, e, hk)
    [] e.op = "lsave"  -> LSave(s, e, hk)
    [] e.op = "lraw"   -> LRaw(s, e, hk)
    [] e.op = "ldamage" -> LDamage(s, e, hk)
    [] e.op = "lload"  -> LLoad(s, e, hk)
    [] e.op = "lmut"   -> LMut(s, e, hk)
    [] e.op = "nnew"   -> NNew(s, e, hk)
    [] e.op = "nadd"   -> NAdd(s, e, hk)
    [] e.op = "nadds"  -> NAdds(s, e, hk)
    [] e.op \in {"ntrain", "ninf"} -> NMode(s, e, hk)
    [] e.op = "ninfer" -> NInfer(s, e, hk, opq)
    [] e.op = "nback"  -> NBack(s, e, hk, opq)
    [] e.op = "nrep"   -> NRep(s, e, hk)
    [] e.op = "nsave"  -> NSave(s, e, hk)
    [] e.op = "nload"  -> NLoad(s, e, hk)
    [] e.op = "nsavefail" -> NSaveFail(s, e, hk)
    [] e.op = "nrec"   -> NRec(s, e, hk)
    [] e.op \in {"ftear", "fremove"} -> R([s EXCEPT !.files = Put(@, e.f, Torn)], {})
    [] e.op = "fcopy"  -> R([s EXCEPT !.files = Put(@, e.f, FileOf(s, e.from))], {})
    [] e.op = "fcompose" -> FCompose(s, e, hk)

----------------------------------------------------------------------------
(* What the history of a call adds: properties that speak about sequences of calls.   *)

Results == {"lfwd", "lbwd", "ninfer", "nback"}
RunCall == {"lfwd", "lbwd", "lclear", "ltrain", "linf"}
NetCall   == {"ninfer", "nback", "nrep", "ntrain", "ninf", "nadd", "nadds", "nsave", "nload", "nrec"}
\* what a computation depends on
Key(s, e) ==
  CASE e.op = "lfwd" -> << "l", Record(s.lay[e.o]), s.lay[e.o].mode, e.x >>
    [] e.op = "lbwd" -> << "b", Record(s.lay[e.o]), s.lay[e.o].mem, e.x, e.y, e.g >>
    [] e.op = "nback" -> LET nt == s.nets[e.n]
                         IN  << "B", [m \in 1..Len(nt.ls) |-> << Record(nt.ls[m]), nt.ls[m].mem >>], nt.st, e.g >>
    [] OTHER -> << "n", [m \in 1..Len(s.nets[e.n].ls) |-> Record(s.nets[e.n].ls[m])], s.nets[e.n].rs, e.x >>
More(s, e, bad, opq, par) ==
  IF bad = {} THEN {}
       \* recorded while other threads used other objects of the library
  ELSE (IF par THEN {"C26"} ELSE {})
       \cup (IF e.op \in RunCall \cup {"ninfer", "nback"} /\ e.ret = "panic" THEN {"C20"} ELSE {})
       \* an observed value that no longer is a number of its unit: whose is it?
       \cup (IF e.bad /\ e.op \in RunCall /\ e.ret # "panic" /\ HasBad(e.obs.p) THEN {"C25"} ELSE {})
       \cup (IF e.bad /\ e.op \in {"lclear", "ltrain", "linf"} /\ e.ret # "panic" /\ HasBad(e.obs.g) THEN {"C14"} ELSE {})
       \cup (IF e.bad /\ e.op \in NetCall /\ e.ret # "panic" /\ \E m \in 1..Len(e.obs.ls) : HasBad(e.obs.ls[m].p) THEN {"C25"} ELSE {})
       \cup (IF e.op \in RunCall /\ e.o \in s.ld THEN {"C24"} ELSE {})
       \cup (IF e.op \in {"lfwd", "lbwd"} /\ e.o \in s.er THEN {"C20"} ELSE {})
       \cup (IF e.op \in RunCall /\ e.o \in s.rf THEN {"C15"} ELSE {})
       \cup (IF e.op \in NetCall /\ e.n \in s.nld THEN {"C21"} ELSE {})
       \cup (IF e.op = "nback" /\ e.n \in s.nld THEN {"C24"} ELSE {})
       \cup (IF e.op \in NetCall /\ e.n \in s.nre THEN {"C22"} ELSE {})
       \cup (IF e.op \in NetCall /\ e.n \in s.are THEN {"C16"} ELSE {})
       \* the boundaries a network was given are of no use
       \cup (IF e.op = "nback" /\ e.ret = "panic" /\ e.n \notin s.bk THEN {"C16"} ELSE {})
       \* the same computation conformed before: its result depends on the history
       \cup (IF e.op \in Results /\ ~opq /\ Key(s, e) \in s.seen THEN {"C26"} ELSE {})
Track(s, n, e, opq) ==
  CASE e.op \in {"lmake", "lempty"} -> [n EXCEPT !.ld = @ \ {e.o}, !.er = @ \ {e.o}, !.rf = @ \ {e.o}]
    [] e.op = "lload" -> [n EXCEPT !.ld = @ \cup {e.o}]
    [] e.op \in {"lfill", "lset"} -> [n EXCEPT !.rf = @ \cup {e.o}]
    [] e.op \in {"lfwd", "lbwd"} /\ e.ret = "err" -> [n EXCEPT !.er = @ \cup {e.o}]
    [] e.op \in Results /\ e.ret = "ok" ->
         [n EXCEPT !.seen = IF opq THEN @ ELSE @ \cup { Key(s, e) }, !.bk = IF e.op = "nback" THEN @ \cup {e.n} ELSE @]
    [] e.op = "nnew" -> [n EXCEPT !.nld = @ \ {e.n}, !.nre = @ \ {e.n}, !.are = @ \ {e.n}, !.bk = @ \ {e.n}]
    [] e.op \in {"nload", "nrec"} -> [n EXCEPT !.nld = @ \cup {e.n}, !.nre = IF e.ret = "err" THEN @ \cup {e.n} ELSE @]
    [] e.op \in {"nadd", "nadds"} /\ e.ret = "err" -> [n EXCEPT !.are = @ \cup {e.n}]
    [] OTHER -> n
Step(s, e, hk, opq, par) ==
  LET r == Plain(s, e, hk, opq)
  IN  [st |-> Track(s, r.st, e, opq), bad |-> r.bad \cup More(s, e, r.bad, opq, par)]

----------------------------------------------------------------------------
Init == /\ t \in 1..Len(Trace)
        /\ l = 1
        /\ st = Start
        /\ fail = {}

Next == /\ l <= Len(Trace[t].ev)
        /\ fail = {}
        /\ l' = l + 1
        /\ t' = t
        /\ LET e == Trace[t].ev[l]
               r == Step(st, e, Trace[t].hk, Trace[t].opq, Trace[t].par)
           IN  /\ st' = r.st
               /\ fail' = r.bad
               /\ (r.bad = {} \/ PrintT(<<"FAIL", Trace[t].id, l, e.op, e.ret, r.bad>>))

Spec == Init /\ [][Next]_vars
View == << t, l >>
CallsConform == IF FOCUS = "ALL" THEN fail = {} ELSE FOCUS \notin fail
\* the invariants of the specification hold in every state the real calls lead to
ModelInv == fail # {} \/ \A n \in DOMAIN st.nets : NetInv(st.nets[n])
Brief == [trace |-> Trace[t].id, line |-> l, event |-> IF l > 1 THEN Trace[t].ev[l-1] ELSE << >>, violates |-> fail]
=============================================================================
