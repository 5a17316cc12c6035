------------------------------ MODULE TraceOps ------------------------------
(***************************************************************************)
(* Trace validation of the tensor operations.  Every line of the trace     *)
(* file is one trace: a sequence of recorded calls of the real library,    *)
(* each with the operands before (pre) and after (post) the call, scalar   *)
(* arguments (par, idx, shp), scalar results (out) and the reply (ret).    *)
(* A call conforms when its reply, its results and ALL its operands after  *)
(* the call are what the operators of module Tensors say.                  *)
(* The only state a trace carries is the content of the tensor files.      *)
(***************************************************************************)
EXTENDS Extended, Softmax, Json, IOUtils

CONSTANT FOCUS                       \* id of the property being decided, or "ALL"
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, files, fail
vars == << t, l, files, fail >>

Ev(tt, n) == Trace[tt].ev[n]
NoFile == [ok |-> FALSE, x |-> << >>]

----------------------------------------------------------------------------
(* What each call should do: [ret |-> reply, post |-> operands afterwards]. *)

Unchanged(e, r) == [ret |-> r, post |-> e.pre]
Done(p)         == [ret |-> "ok", post |-> p]
\* operations without a reply: a mismatch leaves everything as it was
Silent(e, ok, p)  == IF ok THEN Done(p) ELSE Unchanged(e, "ok")
Replies(e, ok, p) == IF ok THEN Done(p) ELSE Unchanged(e, "err")

Expected(e) ==
  LET A == e.pre[1]  B == e.pre[2]  C == e.pre[3]
  IN
  CASE e.op = "new"      -> Done(<< Zero(e.shp[1]) >>)
    [] e.op = "empty"    -> Done(<< Zero(<<1,1,1>>) >>)
    [] e.op = "set"      -> Done(<< SetItem(A, e.par[1], e.par[2], e.par[3], e.par[4]) >>)
    [] e.op = "get"      -> Done(<< A >>)
    [] e.op = "writeall" -> Done(<< [s |-> A.s, d |-> [n \in 1..Len(A.d) |-> n]] >>)
    [] e.op = "fillval"  -> Done(<< Fill(A.s, e.par[1]) >>)
    [] e.op = "fillvec"  -> Replies(e, Len(e.par) = Size(A.s), << [s |-> A.s, d |-> e.par] >>)
    [] e.op = "gauss0"   -> Done(<< Fill(A.s, e.par[1]) >>)
    [] e.op = "add"      -> Silent(e, A.s = B.s /\ B.s = C.s, << A, B, Add(A, B) >>)
    [] e.op = "addself"  -> Silent(e, A.s = B.s, << Add(A, B), B >>)
    [] e.op = "mul"      -> Silent(e, A.s = B.s /\ B.s = C.s, << A, B, Times(A, B) >>)
    [] e.op = "mulself"  -> Silent(e, A.s = B.s, << Times(A, B), B >>)
    [] e.op = "scale"    -> Silent(e, A.s = B.s, << A, Scale(A, e.par[1]) >>)
    [] e.op = "scaleself" -> Done(<< Scale(A, e.par[1]) >>)
    [] e.op = "relu"     -> Replies(e, A.s = B.s, << Relu(A), Mask(A, 1) >>)
    [] e.op = "addidx"   -> Replies(e, IndexListOK(A, B, e.idx), << A, AddFromIndex(A, B, e.idx) >>)
    [] e.op = "norm"     -> Done(<< A >>)
    \* three long-lived tensors
    [] e.op = "fillval3" -> Done(<< Fill(A.s, e.par[1]), B, C >>)
    [] e.op = "fillvec3" -> Done(<< [s |-> A.s, d |-> e.par], B, C >>)
    [] e.op = "addself3" -> Done(<< Add(A, B), B, C >>)
    [] e.op = "clone"    -> Done(<< A, B, A >>)
    [] e.op = "relu3"    -> Done(<< Relu(A), Mask(A, e.par[1]), C >>)
    [] e.op = "setp"     -> Done(<< [A EXCEPT !.d[e.par[1] + 1] = e.par[2]], B, C >>)
    [] e.op = "eq"       -> Done(e.pre)
    [] e.op = "matmul"   -> Silent(e, MatShapesOK(A.s, B.s, C.s), << A, B, MatMul(A, B) >>)
    [] e.op = "mmt1"     -> Replies(e, MatShapesOK(TransShape(A.s), B.s, C.s), << A, B, MatMulTFirst(A, B) >>)
    [] e.op = "mmt2"     -> Replies(e, MatShapesOK(A.s, TransShape(B.s), C.s), << A, B, MatMulTSecond(A, B) >>)
    [] e.op = "mmar"     -> Silent(e, MatShapesOK(B.s, A.s, e.pre[4].s) /\ C.s = e.pre[4].s,
                                   << A, B, C, MatMulAddRelu(A, B, C) >>)
    [] e.op = "transp"   -> Replies(e, TransOK(A, B), << A, Transpose(A) >>)
    [] e.op = "fmm"      -> LET r == MatMulAddRelu(A, B, C) IN Done(<< A, B, C, r, r >>)
    [] e.op = "fconv"    ->
         LET ch == e.par[2]
             on == ConvChannel(A, B, C.d[1], e.par[1], e.pre[4], ch, TRUE)
             of == Relu(ConvChannel(A, B, C.d[1], e.par[1], e.pre[5], ch, FALSE))
         IN  Done(<< A, B, C, on, of >>)
    [] e.op \in {"conv", "convrelu"} ->
         Replies(e, /\ ConvShapesOK(A.s, B.s, e.par[1], e.pre[4].s, e.par[2]) /\ C.s = <<1,1,1>>,
                 << A, B, C, ConvChannel(A, B, C.d[1], e.par[1], e.pre[4], e.par[2], e.op = "convrelu") >>)
    [] e.op = "convin"   ->
         LET kers == SubSeq(e.pre, 3, Len(e.pre))
             ok == IF kers = << >> THEN FALSE ELSE ConvInputGradOK(A, kers, e.par[1], B.s)
         IN  Replies(e, ok, << A, ConvInputGrad(A, kers, e.par[1], B.s) >> \o kers)
    [] e.op = "convker"  ->
         Replies(e, ConvShapesOK(B.s, C.s, e.par[1], A.s, e.par[2]),
                 << A, B, ConvKernelGrad(A, B, e.par[1], e.par[2], C.s) >>)
    [] e.op = "pool"     -> Silent(e, PoolShapesOK(A.s, e.shp[1], e.par[1], B.s), << A, Pool(A, e.shp[1], e.par[1]) >>)
    [] e.op = "poolt"    -> Replies(e, PoolShapesOK(A.s, e.shp[1], e.par[1], B.s) /\ Len(e.idx) = Size(B.s),
                                    << A, Pool(A, e.shp[1], e.par[1]) >>)
    \* the same operations on infinities and not-a-number
    [] e.op = "xadd"     -> Done(<< A, B, XAdd(A, B) >>)
    [] e.op = "xaddself" -> Done(<< XAdd(A, B), B >>)
    [] e.op = "xmul"     -> Done(<< A, B, XTimes(A, B) >>)
    [] e.op = "xmulself" -> Done(<< XTimes(A, B), B >>)
    [] e.op = "xscale"   -> Done(<< A, XScale(A, e.par[1]) >>)
    [] e.op = "xscaleself" -> Done(<< XScale(A, e.par[1]) >>)
    [] e.op = "xaddidx"  -> Done(<< A, XAddFromIndex(A, B, e.idx) >>)
    [] e.op = "xmatmul"  -> Done(<< A, B, XMatMul(A, B) >>)
    [] e.op = "xmmt1"    -> Done(<< A, B, XMatMul(Transpose(A), B) >>)
    [] e.op = "xmmt2"    -> Done(<< A, B, XMatMul(A, Transpose(B)) >>)
    [] e.op = "xconv"    -> Done(<< A, B, C, XConvChannel(A, B, C.d[1], e.par[1], e.pre[4], e.par[2]) >>)
    [] e.op = "xconvin"  -> LET kers == SubSeq(e.pre, 3, Len(e.pre))
                            IN  Done(<< A, XConvInputGrad(A, kers, e.par[1], B.s) >> \o kers)
    [] e.op = "xconvker" -> Done(<< A, B, XConvKernelGrad(A, B, e.par[1], e.par[2], C.s) >>)
    [] OTHER             -> Done(e.pre)

\* additional conditions on scalar results
OutOK(e, exp) ==
  CASE e.op = "new"      -> e.out = << Size(e.shp[1]) >>
    [] e.op = "get"      -> e.out = << GetItem(e.pre[1], e.par[1], e.par[2], e.par[3]) >>
    [] e.op = "writeall" -> e.out = [n \in 1..Size(e.pre[1].s) |-> n - 1]
    [] e.op = "empty"    -> e.out = << 1 >>
    [] e.op = "shape"    ->                            \* everything a shape says about itself
         LET s == e.shp[1]  c == e.shp[2]
         IN  e.out = s \o << Size(s) >> \o TransShape(s) \o TransShape(TransShape(s)) \o StrideOf(s)
                       \o << IF s = c THEN 1 ELSE 0, IF StrideOf(s) = StrideOf(c) THEN 1 ELSE 0 >>
    [] e.op = "shapenew" -> e.out = ShapeNew(e.par[1], e.par[2], e.par[3])
                                     \o << e.par[4], 1, 1 >> \o << e.par[4], e.par[5], 1 >>
    [] e.op = "fitsix"   ->                            \* shp: a shape; par: a coordinate
         LET s == e.shp[1]  in == InRange(s, e.par[1], e.par[2], e.par[3])
         IN  e.out = IF in THEN << 1, Lin(s, e.par[1], e.par[2], e.par[3]) >> ELSE << 0 >>
    [] e.op = "ixnew"    -> e.out = << e.par[1], 0, 0 >> \o << e.par[1], e.par[2], 0 >> \o << 0, 0, 0 >>
    [] e.op = "lin"      -> e.out = << Lin(e.shp[1], e.par[1], e.par[2], e.par[3]) >>
    [] e.op = "probe"    ->
         LET n == Len(e.par) \div 3
             c(m) == SubSeq(e.par, 3*m - 2, 3*m)
             w(m) == IF ~InRange(e.shp[1], c(m)[1], c(m)[2], c(m)[3]) THEN 0
                     ELSE CHOOSE q \in m..n : c(q) = c(m) /\ \A r \in (q+1)..n : c(r) # c(m)
         IN  e.out = [m \in 1..n |-> w(m)]
    [] e.op = "norm"     -> LET n == e.out[1]  s == 256 * SumSquares(e.pre[1])
                            IN  n >= 0 /\ n <= 46000 /\ (n + 1) * (n + 1) >= s /\ (n = 0 \/ (n - 1) * (n - 1) <= s)
    [] e.op = "eq"       -> LET b == IF e.pre[1] = e.pre[3] THEN 1 ELSE 0 IN e.out = << b, 1 - b, 1 >>
    [] e.op = "poolt"    -> IF exp.ret = "ok" THEN OriginsOK(e.pre[1], e.shp[1], e.par[1], e.pre[2].s, e.out)
                            ELSE e.out = e.idx
    [] e.op = "fits"     -> IF WinFits(e.shp[1], e.shp[2], e.par[1])
                            THEN e.out = << 1, WinCount(e.shp[1], e.shp[2], e.par[1])[1],
                                               WinCount(e.shp[1], e.shp[2], e.par[1])[2] >>
                            ELSE e.out = << 0 >>
    [] e.op = "checkpool" -> e.out = << IF PoolShapesOK(e.shp[1], e.shp[2], e.par[1], e.shp[3]) THEN 1 ELSE 0 >>
    [] OTHER -> TRUE

\* calls whose result is not a function of the operands
SoftmaxOK(e) ==                       \* par: inputs in quarters; operand 1: output in 2^-20
  IF e.shp[1] # e.pre[1].s THEN e.ret = "ok" /\ e.post = e.pre
  ELSE LET y == e.post[1].d
           m == SoftmaxSeq(e.par, 20)
           total == Sum(y)
       IN  /\ e.ret = "ok" /\ e.post[1].s = e.pre[1].s /\ Len(y) = Len(m)
           /\ \A n \in 1..Len(m) : y[n] >= 0 /\ y[n] <= 1048576 /\ Abs(y[n] - m[n]) <= 16 + Len(m) \div 2
           /\ Abs(total - 1048576) <= 4 + Len(m)
           \* larger inputs have at least the probability of smaller ones, equal inputs the same
           /\ LET by == SortSeq([n \in 1..Len(m) |-> << e.par[n], y[n] >>],
                                LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
              IN  \A n \in 2..Len(m) : IF by[n-1][1] = by[n][1] THEN by[n-1][2] = by[n][2] ELSE by[n-1][2] <= by[n][2]
           \* out: the same probabilities as mantissas and exponents
           /\ Len(e.out) = 2 * Len(m)
           /\ RatiosOK(e.par, [n \in 1..Len(m) |-> << e.out[2*n-1], e.out[2*n] >>])

\* random fills; out: deviations from the mean in tenths of the standard deviation, or positions
\* in the interval in hundredths.  The bounds leave room for ten standard errors.
Dev2(z, mid)  == Sum([n \in 1..Len(z) |-> (z[n] - mid) * (z[n] - mid)])
Varied(z)     == Cardinality({ z[n] : n \in 1..Len(z) }) > 1
Centred(z, mid, sd) == LET d == Sum(z) - mid * Len(z) IN Len(z) < 60 \/ d * d <= 100 * sd * sd * Len(z)
GaussOK(z)    == /\ \A n \in 1..Len(z) : Abs(z[n]) <= 120
                 /\ Varied(z) /\ Centred(z, 0, 10)
                 /\ Len(z) >= 60 => LET v == Dev2(z, 0) IN v >= 10 * Len(z) /\ v <= 400 * Len(z)
SpreadOK(z)   == /\ \A n \in 1..Len(z) : z[n] >= 0 /\ z[n] <= 100
                 /\ Varied(z) /\ Centred(z, 50, 29)
                 /\ Len(z) >= 60 => LET v == Dev2(z, 50) IN v >= 200 * Len(z) /\ v <= 2000 * Len(z)

\* files: state before is f (a file or NoFile)
LoadOK(e, f) ==
  IF f.ok THEN e.ret = "ok" /\ e.post = << f.x >>
               /\ e.out = << Size(f.x.s), 1, 1, 1, 1 >>
  ELSE e.ret = "err" /\ e.post = << >>

FileAfter(e, f) == CASE e.op = "tsave" -> [ok |-> TRUE, x |-> e.pre[1]]
                     [] e.op \in {"ttear", "tremove", "tmut"} -> NoFile
                     [] OTHER -> f

Conforms(e, f) ==
  IF e.ret = "panic" \/ e.bad THEN FALSE
  ELSE CASE e.op = "softmax" -> SoftmaxOK(e)
         [] e.op = "uniform" -> /\ e.ret = "ok" /\ e.post[1].s = e.pre[1].s
                                /\ \A n \in 1..Size(e.pre[1].s) :
                                     e.par[1] <= e.post[1].d[n] /\ e.post[1].d[n] <= e.par[2]
         [] e.op \in {"gauss", "spread"} ->
              /\ e.ret = "ok" /\ e.post = << Zero(e.shp[1]) >> /\ Len(e.out) = Size(e.shp[1]) + 1
              /\ LET z == SubSeq(e.out, 1, Size(e.shp[1]))
                 IN  /\ IF e.op = "gauss" THEN GaussOK(z) ELSE SpreadOK(z)
                     \* every element is drawn anew: next to no two are the same
                     /\ e.out[Len(e.out)] <= Len(z) /\ 4 * e.out[Len(e.out)] >= 3 * Len(z)
         [] e.op = "tload"   -> LoadOK(e, f)
         [] e.op = "tsavefail" -> e.ret = "err" /\ e.post = e.pre
         [] e.op = "tmut"    -> e.ret = "err" \/ (e.ret = "ok" /\ e.out = << 1, 1 >>)
         [] e.op = "checkconv" ->
              e.ret = (IF ConvShapesOK(e.shp[1], e.shp[2], e.par[1], e.shp[3], e.par[2]) THEN "ok" ELSE "err")
         [] OTHER -> LET x == Expected(e)
                     IN  e.ret = x.ret /\ e.post = x.post /\ OutOK(e, x)

\* the properties a non-conforming call violates
Owners(e) ==
  CASE e.op \in {"new","empty","shape","shapenew","fitsix","ixnew","set","get","writeall","lin","probe","fillval","fillvec","uniform","gauss0","gauss","spread",
                 "fillval3","fillvec3","setp"} -> {"C01"}
    [] e.op \in {"add","addself","mul","mulself","scale","scaleself","relu","addidx","norm",
                 "addself3","clone","relu3","eq",
                 "xadd","xaddself","xmul","xmulself","xscale","xscaleself","xaddidx"} -> {"C02"}
    [] e.op \in {"matmul","mmt1","mmt2","transp","xmatmul","xmmt1","xmmt2"} -> {"C03"}
    [] e.op = "mmar"     -> {"C03", "C04"}
    [] e.op \in {"fmm","fconv"} -> {"C04"}
    [] e.op \in {"conv","convrelu","checkconv","xconv"} -> {"C05"}
    [] e.op = "fits"     -> {"C05", "C08"}
    [] e.op \in {"convin","xconvin"} -> {"C06"}
    [] e.op \in {"convker","xconvker"} -> {"C07"}
    [] e.op \in {"pool","poolt","checkpool"} -> {"C08"}
    [] e.op = "softmax"  -> {"C10"}
    [] OTHER             -> {"C23"}

----------------------------------------------------------------------------
Init == /\ t \in 1..Len(Trace)
        /\ l = 1
        /\ files = << NoFile, NoFile >>
        /\ fail = {}

Next == /\ l <= Len(Trace[t].ev)
        /\ l' = l + 1
        /\ t' = t
        /\ LET e == Ev(t, l)
               k == IF e.op \in {"tsave","tload","ttear","tremove","tmut"} THEN e.par[1] + 1 ELSE 1
               ok == Conforms(e, files[k])
           IN  /\ files' = [files EXCEPT ![k] = FileAfter(e, files[k])]
               /\ fail' = IF ok THEN {} ELSE Owners(e)
               /\ (ok \/ PrintT(<<"FAIL", Trace[t].id, l, e.op, e.ret, fail'>>))

Spec == Init /\ [][Next]_vars
View == << t, l >>
\* every recorded call is one the specification allows (for the property in focus)
CallsConform == IF FOCUS = "ALL" THEN fail = {} ELSE FOCUS \notin fail
Brief == [trace |-> Trace[t].id, line |-> l, event |-> IF l > 1 THEN Ev(t, l-1) ELSE << >>, violates |-> fail]
=============================================================================
