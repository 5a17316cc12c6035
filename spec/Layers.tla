------------------------------- MODULE Layers -------------------------------
(***************************************************************************)
(* The four layer kinds as state machines, and one for layers that the     *)
(* user of the library wrote ("user").                                     *)
(*                                                                         *)
(* A layer is a record                                                     *)
(*   kind  "fc" | "conv" | "pool" | "softmax" | "user"                     *)
(*   name  label given by the user                                         *)
(*   mode  "inf" | "trn"                                                   *)
(*   in, out  advertised shapes                                            *)
(*   p     parameters: fc <<weights, bias>>, conv kernels \o biases        *)
(*   st, win  stride and (pool) window shape                               *)
(*   g     accumulated parameter gradients, same shapes as p (training)    *)
(*   mem   what the last training forward pass left for backward: the      *)
(*         ReLU mask (fc, conv) or the pooled image (pool)                 *)
(*   fresh TRUE iff a training forward pass happened since the layer last  *)
(*         entered training mode or was re-filled: without one the effect  *)
(*         of backward on gradients is unspecified                         *)
(*                                                                         *)
(* Every call is an operator returning the successor layer and the reply.  *)
(* Calls whose numeric result the specification does not determine (the    *)
(* exponential up to tolerance, ties in pooling gradients, opaque float    *)
(* traces) take the observed value as `seen' and say if it is admissible.  *)
(***************************************************************************)
EXTENDS Tensors, Softmax

CONSTANTS TOLF,   \* tolerance of forward values   (0 in exact traces)
          TOLG    \* tolerance of gradient values  (0 in exact traces)

Near(a, b, tol) == IF tol = 0 THEN a = b ELSE Abs(a - b) <= tol
NearT(x, y, tol) == /\ x.s = y.s /\ Len(x.d) = Len(y.d)
                    /\ \A n \in 1..Len(x.d) : Near(x.d[n], y.d[n], tol)
NearSeq(xs, ys, tol) == /\ Len(xs) = Len(ys)
                        /\ \A n \in 1..Len(xs) : NearT(xs[n], ys[n], tol)

NoMem == [s |-> <<0,0,0>>, d |-> << >>]

----------------------------------------------------------------------------
(* Construction.  a = [kind, name, p, nk, in, st, win]; for conv the first  *)
(* nk tensors of p are kernels and the rest biases.                         *)

Kernels(a) == SubSeq(a.p, 1, a.nk)
Biases(a)  == SubSeq(a.p, a.nk + 1, Len(a.p))

ArgsOK(a) ==
  CASE a.kind = "fc" ->
         LET w == a.p[1]  b == a.p[2]
         IN  w.s[3] = b.s[3] /\ w.s[1] = b.s[1] /\ b.s[2] = 1
    [] a.kind = "conv" ->
         /\ a.nk >= 1
         /\ \A n \in 1..a.nk : a.p[n].s = a.p[1].s
         /\ a.p[1].s[3] = a.in[3]
         /\ WinFits(a.in, a.p[1].s, a.st)
         /\ Len(a.p) = 2 * a.nk
         /\ \A n \in (a.nk+1)..Len(a.p) : a.p[n].s = <<1,1,1>>
    [] a.kind = "pool" -> WinFits(a.in, a.win, a.st)
    [] a.kind \in {"softmax", "user"} -> TRUE

InShape(a) == IF a.kind = "fc" THEN << a.p[1].s[2], 1, a.p[1].s[3] >> ELSE a.in
OutShape(a) ==
  CASE a.kind = "fc" -> a.p[2].s
    [] a.kind = "conv" -> WinOutShape(a.in, a.p[1].s, a.st, a.nk)
    [] a.kind = "pool" -> WinOutShape(a.in, a.win, a.st, a.in[3])
    [] a.kind = "softmax" -> a.in
    [] a.kind = "user" -> << Size(a.in), 1, 1 >>

ZeroGrads(p, mode) == IF mode = "trn" THEN [n \in 1..Len(p) |-> Zero(p[n].s)] ELSE << >>

MakeLayer(a, mode) ==
  [kind |-> a.kind, name |-> a.name, mode |-> mode, in |-> InShape(a), out |-> OutShape(a),
   p |-> a.p, st |-> a.st, win |-> a.win,
   g |-> ZeroGrads(a.p, mode), mem |-> NoMem, fresh |-> FALSE]

NKer(L) == Len(L.p) \div 2
LKers(L) == SubSeq(L.p, 1, NKer(L))
LBias(L) == SubSeq(L.p, NKer(L) + 1, Len(L.p))

\* what a saved record of the layer holds
Record(L) == [kind |-> L.kind, name |-> L.name, in |-> L.in, out |-> L.out,
              p |-> L.p, st |-> L.st, win |-> L.win]
FromRecord(r, mode) ==
  [kind |-> r.kind, name |-> r.name, mode |-> mode, in |-> r.in, out |-> r.out,
   p |-> r.p, st |-> r.st, win |-> r.win,
   g |-> ZeroGrads(r.p, mode), mem |-> NoMem, fresh |-> FALSE]

\* (re)entering a mode forgets gradients and the last forward pass
Switch(L, mode) == [L EXCEPT !.mode = mode, !.g = ZeroGrads(L.p, mode),
                             !.mem = NoMem, !.fresh = FALSE]

\* setting all weights (m = 1) or biases (m = 2) of a fully connected layer to one value changes
\* nothing else; the last forward pass no longer belongs to these parameters
SetAll(L, m, v) == [L EXCEPT !.p[m] = Fill(L.p[m].s, v), !.fresh = FALSE]

ClearGrads(L) == [L EXCEPT !.g = ZeroGrads(L.p, L.mode)]

----------------------------------------------------------------------------
(* The function a layer computes *)

\* A layer of the user: flattens, turns around and scales by st, forward and backward; it refuses
\* an input that begins with win[1] and a gradient that begins with win[2]
Turned(d, k) == [n \in 1..Len(d) |-> k * d[Len(d) + 1 - n]]
RefusesInput(L, x) == L.kind = "user" /\ x.d[1] = L.win[1]
RefusesGrad(L, g)  == L.kind = "user" /\ g.d[1] = L.win[2]

PreAct(L, x) == IF L.kind = "fc" THEN Add(MatMul(L.p[1], x), L.p[2])
                ELSE ConvAll(x, LKers(L), LBias(L), L.st)
ToQuarters(v) == IF QBITS >= 2 THEN v \div 2^(QBITS - 2) ELSE 4 * v

LayerFun(L, x) ==
  CASE L.kind \in {"fc","conv"} -> Relu(PreAct(L, x))
    [] L.kind = "pool"          -> Pool(x, L.win, L.st)
    [] L.kind = "user"          -> [s |-> L.out, d |-> Turned(x.d, L.st)]
    [] L.kind = "softmax"       ->
         [s |-> x.s, d |-> SoftmaxSeq([n \in 1..Len(x.d) |-> ToQuarters(x.d[n])], QBITS)]

MemAfter(L, x) ==
  CASE L.kind \in {"fc","conv"} -> Mask(PreAct(L, x), 1)
    [] L.kind = "pool"          -> x
    [] OTHER                    -> NoMem

FwdShapesOK(L, x, y0) == x.s = L.in /\ y0.s = L.out
BwdShapesOK(L, x, y, g, gx0) == x.s = L.in /\ y.s = L.out /\ g.s = L.out /\ gx0.s = L.in

\* effect of a successful forward pass on the layer
AfterForward(L, x) == IF L.mode = "trn" THEN [L EXCEPT !.mem = MemAfter(L, x), !.fresh = TRUE] ELSE L

\* (the tabulated exponential is rounded: many small terms are uncertain together)
Slack(L, x) == IF TOLF = 0 \/ L.kind # "softmax" THEN TOLF ELSE TOLF + Len(x.d) \div 32
ForwardValueOK(L, x, y) == NearT(y, LayerFun(L, x), Slack(L, x))

----------------------------------------------------------------------------
(* Backpropagation: derivative of <g, layer(x)> *)

Gate(m, g) == Map2(m, g, LAMBDA a, b : IF a > 0 THEN b ELSE 0)

\* contribution of one backward pass to the parameter gradients
ParamGrad(L, x, g) ==
  IF L.kind = "fc"
  THEN LET gm == Gate(L.mem, g) IN << MatMulTSecond(gm, x), gm >>
  ELSE IF L.kind = "conv"
  THEN LET gm == Gate(L.mem, g)
           n  == NKer(L)
       IN  [m \in 1..(2*n) |->
              IF m <= n THEN ConvKernelGrad(gm, x, L.st, m-1, L.p[m].s)
              ELSE [s |-> <<1,1,1>>, d |-> << ConvBiasGrad(gm, m-n-1) >>]]
  ELSE << >>

AddGrads(a, b) == [n \in 1..Len(a) |-> Add(a[n], b[n])]

\* gradient handed to the previous layer: gx is admissible
InputGradOK(L, x, y, g, gx) ==
  CASE L.kind = "fc" -> NearT(gx, MatMulTFirst(L.p[1], Gate(L.mem, g)), TOLG)
    [] L.kind = "conv" -> NearT(gx, ConvInputGrad(Gate(L.mem, g), LKers(L), L.st, L.in), TOLG)
    [] L.kind = "user" -> gx = [s |-> L.in, d |-> Turned(g.d, L.st)]
    [] L.kind = "pool" -> PoolGradOK(L.mem, L.win, L.st, g, gx, LAMBDA a, b : Near(a, b, TOLG))
    [] L.kind = "softmax" ->
         LET v == IF QBITS >= 16
                  THEN SoftmaxGradSeq(y.d, [n \in 1..Len(g.d) |-> g.d[n] \div Q], Q)
                  ELSE LET dot == Inner(y, g)
                       IN  [n \in 1..Len(g.d) |-> Mul(y.d[n], g.d[n] - dot)]
         IN  NearT(gx, [s |-> g.s, d |-> v], TOLG)

ParamGradAfter(L, x, g) == IF L.p = << >> THEN << >> ELSE AddGrads(L.g, ParamGrad(L, x, g))
=============================================================================
