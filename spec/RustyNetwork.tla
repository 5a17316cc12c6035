---------------------------- MODULE RustyNetwork ----------------------------
(***************************************************************************)
(* Networks, files and the calls of the public API on them.                *)
(*                                                                         *)
(* A network is [ls, st, rs, in, out]: its layers, one boundary value per  *)
(* layer boundary, run state and advertised shapes.  A file is             *)
(* [ok, rs]: whether it holds a complete, well-formed network and the      *)
(* layer records in it.  Every call is one operator from the old state     *)
(* (and, where the specification leaves a choice, the observed value) to   *)
(* the new state; the model checking module and the trace module both use  *)
(* these same operators.                                                   *)
(***************************************************************************)
EXTENDS Layers

NoShape == <<0,0,0>>
NewNet(mode) == [ls |-> << >>, st |-> << >>, rs |-> mode, in |-> NoShape, out |-> NoShape]
NLayers(nt)  == Len(nt.ls)

----------------------------------------------------------------------------
(* Building *)

CanAdd(nt, L) == nt.ls = << >> \/ L.in = nt.out
\* the value of a boundary that no inference has reached yet is not specified: vals
NetAdd(nt, L, vals) ==
  LET first == nt.ls = << >>
  IN  [ls  |-> Append(nt.ls, Switch(L, nt.rs)),
       st  |-> IF first THEN vals ELSE Append(nt.st, vals[1]),
       rs  |-> nt.rs,
       in  |-> IF first THEN L.in ELSE nt.in,
       out |-> L.out]
\* many layers, one after the other
CanAddAll(nt, Ls) == /\ CanAdd(nt, Ls[1])
                     /\ \A n \in 1..(Len(Ls)-1) : Ls[n].out = Ls[n+1].in
NetAddAll(nt, Ls, vals) ==
  LET first == nt.ls = << >>
  IN  [ls  |-> nt.ls \o [n \in 1..Len(Ls) |-> Switch(Ls[n], nt.rs)],
       st  |-> nt.st \o vals,
       rs  |-> nt.rs,
       in  |-> IF first THEN Ls[1].in ELSE nt.in,
       out |-> Ls[Len(Ls)].out]
NewBoundaries(nt, L) == IF nt.ls = << >> THEN << L.in, L.out >> ELSE << L.out >>

NetSwitch(nt, mode) ==
  [nt EXCEPT !.rs = mode, !.ls = [n \in 1..Len(nt.ls) |-> Switch(nt.ls[n], mode)]]

----------------------------------------------------------------------------
(* Running *)

CanInfer(nt, x) == nt.ls # << >> /\ x.s = nt.in
\* vals: the boundary values of a successful inference, each the layer's function of the previous
InferValuesOK(nt, x, vals) ==
  /\ Len(vals) = Len(nt.ls) + 1
  /\ vals[1] = x
  /\ \A n \in 1..Len(nt.ls) : vals[n+1].s = nt.ls[n].out
  /\ \A n \in 1..Len(nt.ls) : ForwardValueOK(nt.ls[n], vals[n], vals[n+1])
NetInfer(nt, x, vals) ==
  [nt EXCEPT !.st = vals,
             !.ls = [n \in 1..Len(nt.ls) |-> AfterForward(nt.ls[n], vals[n])]]
\* the values themselves, for model checking
RECURSIVE InferVals(_,_)
InferVals(ls, x) == IF ls = << >> THEN << x >>
                    ELSE << x >> \o InferVals(Tail(ls), LayerFun(Head(ls), x))

\* a layer may refuse its input (layers of the user do): where, 0 if none does
RECURSIVE RefusedAt(_,_,_)
RefusedAt(ls, x, n) == IF n > Len(ls) THEN 0
                       ELSE IF RefusesInput(ls[n], x) THEN n
                       ELSE RefusedAt(ls, LayerFun(ls[n], x), n + 1)
HasUser(nt) == \E n \in 1..Len(nt.ls) : nt.ls[n].kind = "user"
InferRefused(nt, x) == HasUser(nt) /\ RefusedAt(nt.ls, x, 1) # 0
\* after an inference that a layer refused nothing is known about the last forward pass of any layer
Unfresh(nt) == [nt EXCEPT !.ls = [n \in 1..Len(nt.ls) |-> [nt.ls[n] EXCEPT !.fresh = FALSE]]]

CanBackward(nt, g) == nt.ls # << >> /\ nt.rs = "trn" /\ g.s = nt.out
\* igs: boundary gradients (igs[n] at the input of layer n, igs[n+1] at its output)
BoundaryGradsOK(nt, g, igs) ==
  LET n == Len(nt.ls)
  IN  /\ Len(igs) = n + 1
      /\ igs[n+1] = g
      /\ \A m \in 1..n : igs[m].s = nt.ls[m].in
      \* from the last layer to the first, as the gradients are propagated
      /\ \A q \in 1..n :
           LET m == n + 1 - q
           IN  nt.ls[m].fresh => InputGradOK(nt.ls[m], nt.st[m], nt.st[m+1], igs[m+1], igs[m])
LayerGradsAfter(nt, m, igs) == ParamGradAfter(nt.ls[m], nt.st[m], igs[m+1])
NetBackward(nt, gs) ==
  [nt EXCEPT !.ls = [m \in 1..Len(nt.ls) |-> [nt.ls[m] EXCEPT !.g = gs[m]]]]

RECURSIVE BackVals(_,_,_)
\* the boundary gradients themselves (exact layers without pooling ties), for model checking
InputGrad(L, x, y, g) ==
  CASE L.kind = "fc" -> MatMulTFirst(L.p[1], Gate(L.mem, g))
    [] L.kind = "conv" -> ConvInputGrad(Gate(L.mem, g), LKers(L), L.st, L.in)
    [] L.kind = "pool" ->
         PoolGradAlong(g, [n \in 1..Size(L.out) |->
              CHOOSE q \in ArgMax(L.mem, L.win, L.st, L.out, n) : TRUE], L.in)
    [] L.kind = "user" -> [s |-> L.in, d |-> Turned(g.d, L.st)]
    [] L.kind = "softmax" ->
         LET dot == Inner(y, g) IN [s |-> g.s, d |-> [n \in 1..Len(g.d) |-> Mul(y.d[n], g.d[n] - dot)]]
BackVals(ls, st, g) ==
  LET n == Len(ls)
  IN  IF n = 0 THEN << g >>
      ELSE LET gx == IF ls[n].fresh THEN InputGrad(ls[n], st[n], st[n+1], g) ELSE Zero(ls[n].in)
           IN  Append(BackVals(SubSeq(ls, 1, n-1), st, gx), g)

RECURSIVE GradRefusedAt(_,_,_)
GradRefusedAt(ls, st, g) ==
  LET n == Len(ls)
  IN  IF n = 0 THEN 0 ELSE IF RefusesGrad(ls[n], g) THEN n
      ELSE GradRefusedAt(SubSeq(ls, 1, n-1), st, IF ls[n].fresh THEN InputGrad(ls[n], st[n], st[n+1], g) ELSE Zero(ls[n].in))
\* (pooling layers only in front of the user's layers: their gradients may depend on ties)
BackRefused(nt, g) == HasUser(nt) /\ GradRefusedAt(nt.ls, nt.st, g) # 0

----------------------------------------------------------------------------
(* Files.  Saving may be interrupted: a torn file is not ok. *)

Missing == [ok |-> FALSE, rs |-> << >>]
Torn    == Missing
SavedAs(nt) == [ok |-> TRUE, rs |-> [n \in 1..Len(nt.ls) |-> Record(nt.ls[n])]]
RecordsChain(rs) == \A n \in 1..(Len(rs)-1) : rs[n].out = rs[n+1].in
CanLoad(nt, f) == /\ f.ok
                  /\ RecordsChain(f.rs)
                  /\ (f.rs # << >> /\ nt.ls # << >>) => f.rs[1].in = nt.out
LoadBoundaries(nt, f) ==
  IF f.rs = << >> THEN << >>
  ELSE LET outs == [n \in 1..Len(f.rs) |-> f.rs[n].out]
       IN  IF nt.ls = << >> THEN << f.rs[1].in >> \o outs ELSE outs
NetLoad(nt, f, vals) ==
  IF f.rs = << >> THEN nt
  ELSE [ls  |-> nt.ls \o [n \in 1..Len(f.rs) |-> FromRecord(f.rs[n], nt.rs)],
        st  |-> nt.st \o vals,
        rs  |-> nt.rs,
        in  |-> IF nt.ls = << >> THEN f.rs[1].in ELSE nt.in,
        out |-> f.rs[Len(f.rs)].out]

----------------------------------------------------------------------------
(* Invariants of a network: what the properties say about any reachable one *)

ChainInv(nt) ==                                                      \* C16
  /\ \A n \in 1..(Len(nt.ls)-1) : nt.ls[n].out = nt.ls[n+1].in
  /\ nt.ls # << >> => /\ nt.in = nt.ls[1].in /\ nt.out = nt.ls[Len(nt.ls)].out
                      /\ Len(nt.st) = Len(nt.ls) + 1
                      /\ nt.st[1].s = nt.in
                      /\ \A n \in 1..Len(nt.ls) : nt.st[n+1].s = nt.ls[n].out
  /\ nt.ls = << >> => nt.in = NoShape /\ nt.out = NoShape /\ nt.st = << >>
ModeInv(nt) == \A n \in 1..Len(nt.ls) : nt.ls[n].mode = nt.rs         \* C17
GradInv(nt) == \A n \in 1..Len(nt.ls) :                               \* C14
                 LET L == nt.ls[n]
                 IN  /\ Len(L.g) = (IF L.mode = "trn" THEN Len(L.p) ELSE 0)
                     /\ \A m \in 1..Len(L.g) : L.g[m].s = L.p[m].s
                     /\ (L.mode = "inf" => ~L.fresh)
                     /\ (L.fresh /\ L.kind \in {"fc","conv"} => L.mem.s = L.out)
                     /\ (L.fresh /\ L.kind = "pool" => L.mem.s = L.in)
TensorsInv(nt) == \A n \in 1..Len(nt.st) : IsTensor(nt.st[n])
NetInv(nt) == ChainInv(nt) /\ ModeInv(nt) /\ GradInv(nt) /\ TensorsInv(nt)
=============================================================================
