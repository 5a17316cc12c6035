----------------------------- MODULE MCAlgebra -----------------------------
(***************************************************************************)
(* Exhaustive small-scope checks of the operators of Tensors, Softmax and  *)
(* Layers against independent characterisations: bijectivity of the        *)
(* addressing, adjointness, brute-force geometry, derivatives as finite    *)
(* differences.  One state per case; WHICH selects the family of cases,    *)
(* BIG the scope.                                                          *)
(***************************************************************************)
EXTENDS RustyNetwork

CONSTANTS WHICH, BIG
VARIABLE c
D(n) == 1..n
Basis(s, p) == [s |-> s, d |-> [n \in 1..Size(s) |-> IF n = p THEN 1 ELSE 0]]
Pat(s, k) == [s |-> s, d |-> [n \in 1..Size(s) |-> ((n * (2*k+3) + k*k) % 7) - 3]]
Dot(a, b) == Sum([n \in 1..Len(a.d) |-> a.d[n] * b.d[n]])
Shapes(a, b, e) == { << i, j, k >> : i \in D(a), j \in D(b), k \in D(e) }

----------------------------------------------------------------------------
(* C01: addressing *)
IndexCases == { [s |-> s] : s \in IF BIG THEN Shapes(5,5,4) ELSE Shapes(4,4,3) }
IndexOK ==
  LET s == c.s
      Co == { << i, j, k >> : i \in 0..(s[1]-1), j \in 0..(s[2]-1), k \in 0..(s[3]-1) }
      lin == [q \in Co |-> Lin(s, q[1], q[2], q[3])]
  IN  /\ { lin[q] : q \in Co } = 0..(Size(s)-1)
      /\ \A q \in Co : CI(s, lin[q]) = q[1] /\ CJ(s, lin[q]) = q[2] /\ CK(s, lin[q]) = q[3]
      /\ \A q \in Co : q[1] + 1 < s[1] => Lin(s, q[1]+1, q[2], q[3]) = lin[q] + 1
      /\ \A q \in Co : LET t == SetItem(Zero(s), q[1], q[2], q[3], 7)
                       IN  \A r \in Co : GetItem(t, r[1], r[2], r[3]) = IF r = q THEN 7 ELSE 0
      /\ \A q \in { << s[1], 0, 0 >>, << 0, s[2], 0 >>, << 0, 0, s[3] >>, s } :
           GetItem(Pat(s,1), q[1], q[2], q[3]) = 0 /\ SetItem(Pat(s,1), q[1], q[2], q[3], 7) = Pat(s,1)

(* C02: elementwise and index-list operations *)
ElemCases == { [s |-> s, r |-> r, idx |-> idx] :
                 s \in {<<1,1,1>>, <<2,1,1>>, <<1,2,1>>, <<2,1,2>>}, r \in {<<1,1,1>>, <<3,1,1>>, <<2,2,1>>},
                 idx \in UNION { [1..n -> 0..(IF BIG THEN 4 ELSE 3)] : n \in 0..3 } }
ElemOK ==
  LET a == Pat(c.s, 2)  r == Pat(c.r, 3)
  IN  /\ IndexListOK(a, r, c.idx) =>
           LET v == AddFromIndex(a, r, c.idx)
           IN  /\ v.s = r.s
               /\ Sum(v.d) = Sum(r.d) + Sum(SubSeq(a.d, 1, Len(c.idx)))
               \* one entry at a time
               /\ Len(c.idx) > 0 =>
                    LET n == Len(c.idx)
                        w == AddFromIndex(a, r, SubSeq(c.idx, 1, n-1))
                    IN  v = [w EXCEPT !.d[c.idx[n]+1] = @ + a.d[n]]
               /\ c.idx = << >> => v = r
      /\ Relu(a) = Times(a, Mask(a, 1))
      /\ Add(Relu(a), Scale(Relu(Scale(a, -1)), -1)) = a
      /\ Add(a, a) = Scale(a, 2)

(* C03/C04: matrix products *)
g0(r) == Pat(r.s, 5)
MatCases == { [n |-> n, m |-> m, p |-> p, k |-> k, q |-> q] :
                n \in D(3), m \in D(3), p \in D(3), k \in D(2), q \in D(IF BIG THEN 12 ELSE 4) }
MatOK ==
  LET a == Pat(<<c.n, c.m, c.k>>, c.q)  b == Pat(<<c.m, c.p, c.k>>, c.q + 1)
      r == MatMul(a, b)
      id == Build(<<c.m, c.m, c.k>>, LAMBDA i, j, k : IF i = j THEN 1 ELSE 0)
  IN  /\ MatShapesOK(a.s, b.s, r.s)
      /\ Transpose(Transpose(a)) = a
      /\ MatMul(a, id) = a /\ MatMul(id, b) = b
      /\ Transpose(r) = MatMul(Transpose(b), Transpose(a))
      /\ MatMulTFirst(Transpose(a), b) = r
      /\ MatMulTSecond(a, Transpose(b)) = r
      \* <a b, g> is the same bilinear form whichever factor it is differentiated by
      /\ LET g == Pat(r.s, c.q + 2)
         IN  Dot(r, g) = Dot(b, MatMulTFirst(a, g)) /\ Dot(r, g) = Dot(a, MatMulTSecond(g, b))
      /\ MatMulAddRelu(b, a, g0(r)) = Relu(Add(r, g0(r)))
      \* slices are independent
      /\ \A k \in 0..(c.k-1) :
           LET sl(t) == [s |-> <<t.s[1], t.s[2], 1>>, d |-> SubSeq(t.d, k*t.s[1]*t.s[2]+1, (k+1)*t.s[1]*t.s[2])]
           IN  sl(r) = MatMul(sl(a), sl(b))

(* C05-C08: window geometry, brute force *)
GeomCases == { [i |-> i, w |-> w, st |-> st] : i \in D(IF BIG THEN 9 ELSE 6), w \in D(IF BIG THEN 10 ELSE 7), st \in 0..(IF BIG THEN 5 ELSE 4) }
GeomOK ==
  LET img == << c.i, c.i, 1 >>  win == << c.w, c.w, 1 >>
      \* the window positions 0, st, 2 st, ... cover the image exactly up to its border
      n == WinCount(img, win, c.st)[1]
  IN  IF c.st = 0 THEN ~WinFits(img, win, c.st)
      ELSE /\ WinFits(img, win, c.st) <=> \E m \in 0..20 : m * c.st + c.w = c.i
           /\ WinFits(img, win, c.st) =>
                /\ n >= 1 /\ (n - 1) * c.st + c.w = c.i
                /\ WinOutShape(img, win, c.st, 4) = << n, n, 4 >>

(* C05-C07, C13: convolution and its adjoints on basis tensors *)
ConvGeoms == { [i |-> i, k |-> k, st |-> st, nk |-> nk] :
                 i \in Shapes(IF BIG THEN 5 ELSE 4, 3, 2), k \in Shapes(3, 2, 2), st \in D(3), nk \in D(2) }
ConvCases == { g \in ConvGeoms : g.i[3] = g.k[3] /\ WinFits(g.i, g.k, g.st) /\ (BIG \/ g.i[3] = 1 \/ g.nk = 1) }
ConvOK ==
  LET kers == [n \in D(c.nk) |-> Pat(c.k, n)]
      bs   == [n \in D(c.nk) |-> [s |-> <<1,1,1>>, d |-> << n - 2 >>]]
      zero == [n \in D(c.nk) |-> Zero(<<1,1,1>>)]
      x    == Pat(c.i, 1)
      r    == ConvAll(x, kers, bs, c.st)
      g    == Pat(r.s, 4)
  IN  /\ r.s = WinOutShape(c.i, c.k, c.st, c.nk)
      /\ \A n \in D(c.nk) : ConvShapesOK(c.i, c.k, c.st, r.s, n-1)
      \* channel by channel, in any order, gives the whole
      /\ LET step(t, n) == ConvChannel(x, kers[n], bs[n].d[1], c.st, t, n-1, FALSE)
             up   == FoldLeft(LAMBDA t, n : step(t, n), Pat(r.s, 6), [n \in D(c.nk) |-> n])
             down == FoldLeft(LAMBDA t, n : step(t, n), Pat(r.s, 5), [n \in D(c.nk) |-> c.nk + 1 - n])
         IN  up = r /\ down = r
      \* adjoint in the image, element by element
      /\ LET gx == ConvInputGrad(g, kers, c.st, c.i)
         IN  /\ ConvInputGradOK(g, kers, c.st, c.i)
             /\ \A p \in D(Size(c.i)) : gx.d[p] = Dot(g, ConvAll(Basis(c.i, p), kers, zero, c.st))
      \* adjoint in each kernel and bias, element by element
      /\ \A n \in D(c.nk) :
           LET gk == ConvKernelGrad(g, x, c.st, n-1, c.k)
           IN  /\ \A p \in D(Size(c.k)) :
                    gk.d[p] = Dot(g, ConvAll(x, [m \in D(c.nk) |-> IF m = n THEN Basis(c.k, p) ELSE Zero(c.k)], zero, c.st))
               /\ ConvBiasGrad(g, n-1)
                    = Dot(g, ConvAll(x, [m \in D(c.nk) |-> Zero(c.k)],
                                     [m \in D(c.nk) |-> Basis(<<1,1,1>>, IF m = n THEN 1 ELSE 0)], c.st))

(* C08, C09: pooling *)
PoolCases == { g \in [i : Shapes(4,3,2), w : Shapes(3,3,1), st : D(3), q : D(IF BIG THEN 9 ELSE 3)] : WinFits(g.i, g.w, g.st) }
PoolOK ==
  LET x == [s |-> c.i, d |-> [n \in 1..Size(c.i) |-> ((n * (c.q + 2)) % (c.q + 3)) - 2]]
      r == Pool(x, c.w, c.st)
      n == Size(r.s)
      org == [m \in D(n) |-> CHOOSE q \in ArgMax(x, c.w, c.st, r.s, m) : TRUE]
      org2 == [m \in D(n) |-> LET S == ArgMax(x, c.w, c.st, r.s, m) IN CHOOSE q \in S : \A p \in S : p <= q]
      g == Pat(r.s, 3)
      Eq(a, b) == a = b
  IN  /\ PoolShapesOK(c.i, c.w, c.st, r.s)
      /\ \A m \in D(n) :
           LET w == Window(c.i, c.w, c.st, r.s, m)
           IN  /\ Len(w) = c.w[1] * c.w[2] /\ Cardinality({ w[q] : q \in D(Len(w)) }) = Len(w)
               /\ \A q \in D(Len(w)) : x.d[w[q]+1] <= r.d[m] /\ CK(c.i, w[q]) = CK(r.s, m-1)
               /\ \E q \in D(Len(w)) : x.d[w[q]+1] = r.d[m]
      /\ OriginsOK(x, c.w, c.st, r.s, org)
      \* the windows over a pixel
      /\ \A p \in 0..(Size(c.i)-1) :
           LET cv == Covering(c.i, c.w, c.st, r.s, p)
           IN  /\ ToSet(cv) = { m \in D(n) : p \in ToSet(Window(c.i, c.w, c.st, r.s, m)) }
               /\ Cardinality(ToSet(cv)) = Len(cv)
      \* the routed gradient conserves the total, for every choice among ties, and is recognised
      /\ \A o \in {org, org2} :
           LET gx == PoolGradAlong(g, o, c.i)
           IN  /\ Sum(gx.d) = Sum(g.d)
               /\ PoolGradOK(x, c.w, c.st, g, gx, Eq)
               /\ ~PoolGradOK(x, c.w, c.st, g, Add(gx, Basis(c.i, 1)), Eq)
      \* where maxima are unique it is the derivative of <g, pool>
      /\ (\A m \in D(n) : Cardinality(ArgMax(x, c.w, c.st, r.s, m)) = 1) =>
           LET b == Scale(x, 8)
           IN  \A p \in D(Size(c.i)) :
                 Dot(g, Pool(Add(b, Basis(c.i, p)), c.w, c.st)) - Dot(g, Pool(b, c.w, c.st))
                   = PoolGradAlong(g, org, c.i).d[p]

(* C10, C11: softmax in fixed point *)
Vecs == UNION { [1..n -> IF BIG THEN {-400, -37, -8, -3, 0, 1, 5, 40} ELSE {-400, -8, 0, 5, 40}] : n \in 1..(IF BIG THEN 4 ELSE 3) }
SoftCases == { [x |-> x] : x \in Vecs }
SoftOK ==
  LET y == SoftmaxSeq(c.x, 20)
      n == Len(c.x)
      y16 == SoftmaxSeq(c.x, 16)
      g == [m \in 1..n |-> ((m * 5) % 7) - 3]
      j == SoftmaxGradSeq(y16, g, 65536)
  IN  /\ \A m \in D(n) : y[m] >= 0 /\ y[m] <= 1048576
      /\ Abs(Sum(y) - 1048576) <= n
      /\ \A a, b \in D(n) : (c.x[a] < c.x[b] => y[a] <= y[b]) /\ (c.x[a] = c.x[b] => y[a] = y[b])
      /\ SoftmaxSeq([m \in 1..n |-> c.x[m] + 1000], 20) = y                 \* shift invariance
      /\ n = 1 => y = << 1048576 >>
      /\ \A a, b \in D(n) : (c.x[a] = c.x[b] + 3 /\ y[b] > 2000) =>           \* exp(3/4) = 2.117
             Abs((y[a] * 10) \div (y[b] \div 100) - 2117) <= 30
      /\ Abs(Sum(j)) <= 64 * n                                                 \* the gradient sums to zero
      /\ \A m \in D(n) : (\A q \in D(n) : g[q] = g[1]) => Abs(j[m]) <= 64
      \* and is the derivative: moving logit a by 1/4 moves <g, y> by j[a]/4 up to second order
      /\ \A a \in D(n) :
           LET up == SoftmaxSeq([c.x EXCEPT ![a] = @ + 1], 16)
               dn == SoftmaxSeq([c.x EXCEPT ![a] = @ - 1], 16)
               diff == Sum([m \in 1..n |-> g[m] * (up[m] - dn[m])])            \* over a distance of 1/2
           IN  Abs(2 * diff - j[a]) <= 65536 \div 20

(* C12, C13, C09: layers; the backward pass is the derivative of the forward pass *)
LT(s, q) == Scale(Pat(s, q), 2)
Zs == << 0, 0, 0 >>
BackCases == { [kind |-> "fc", o |-> o, i |-> i, k |-> k, q |-> q] : o \in D(3), i \in D(3), k \in D(2), q \in D(IF BIG THEN 12 ELSE 4) }
             \cup { [kind |-> "conv", o |-> nk, i |-> st, k |-> dk, q |-> q] : nk \in D(2), st \in D(2), dk \in D(2), q \in D(IF BIG THEN 12 ELSE 4) }
CaseArgs ==
  IF c.kind = "fc"
  THEN [kind |-> "fc", name |-> "n", p |-> << LT(<<c.o, c.i, c.k>>, c.q), Pat(<<c.o,1,c.k>>, c.q+1) >>, nk |-> 0, in |-> Zs, st |-> 1, win |-> Zs]
  ELSE [kind |-> "conv", name |-> "n", nk |-> c.o, in |-> <<3,3,c.k>>, st |-> c.i, win |-> Zs,
        p |-> [m \in 1..(2*c.o) |-> IF m <= c.o THEN LT(<<1,1,c.k>>, c.q + m) ELSE Pat(<<1,1,1>>, c.q + m)]]
BackOK ==
  LET a == CaseArgs
      L0 == MakeLayer(a, "trn")
      big == 200
      \* scaled so that a unit step changes no sign; pre-activations are never zero
      nb  == IF c.kind = "fc" THEN 1 ELSE c.o
      L  == [L0 EXCEPT !.p = [m \in 1..Len(a.p) |->
                 IF m <= nb THEN a.p[m] ELSE Add(Scale(a.p[m], big * big), Fill(a.p[m].s, 20000))]]
      x  == Scale(Pat(L.in, c.q + 2), big)
      N  == AfterForward([L EXCEPT !.p = [m \in 1..Len(a.p) |-> IF m <= nb THEN Scale(@[m], big) ELSE @[m]]], x)
      y  == LayerFun(N, x)
      g  == Pat(L.out, c.q)
      pg == ParamGradAfter(N, x, g)
      F(M, z) == Dot(g, LayerFun(M, z))
  IN  /\ ArgsOK(a) /\ y.s = N.out
      /\ \A p \in D(Size(L.in)) :
           F(N, Add(x, Basis(L.in, p))) - F(N, x) = InputGrad(N, x, y, g).d[p]
      /\ \A m \in D(Len(N.p)) : \A p \in D(Size(N.p[m].s)) :
           F([N EXCEPT !.p[m] = Add(@, Basis(N.p[m].s, p))], x) - F(N, x) = pg[m].d[p]
      /\ InputGradOK(N, x, y, g, InputGrad(N, x, y, g))
      \* twice the pass is twice the gradient, clearing forgets it, the mask stays
      /\ ParamGradAfter([N EXCEPT !.g = pg], x, g) = [m \in 1..Len(pg) |-> Scale(pg[m], 2)]
      /\ ClearGrads([N EXCEPT !.g = pg]) = N
      /\ Switch(Switch(N, "inf"), "trn").g = ZeroGrads(N.p, "trn")

(* C19: the chain rule over two layers *)
ChainCases == { [q |-> q, b |-> b] : q \in D(IF BIG THEN 30 ELSE 8), b \in D(3) }
ChainOK ==
  LET cv == MakeLayer([kind |-> "conv", name |-> "c", nk |-> 2, in |-> <<3,1,1>>, st |-> 1, win |-> Zs,
                       p |-> << LT(<<2,1,1>>, c.q), LT(<<2,1,1>>, c.q + 1), Fill(<<1,1,1>>, 30001), Fill(<<1,1,1>>, -5001) >>], "trn")
      po == MakeLayer([kind |-> "pool", name |-> "p", nk |-> 0, in |-> <<2,1,2>>, st |-> 1, win |-> <<2,1,1>>, p |-> << >>], "trn")
      fc == MakeLayer([kind |-> "fc", name |-> "f", nk |-> 0, in |-> Zs, st |-> 1, win |-> Zs,
                       p |-> << LT(<<2,1,2>>, c.q + c.b), Add(Scale(Pat(<<2,1,2>>, c.q), 200001), Fill(<<2,1,2>>, 7)) >>], "trn")
      ls == IF c.b = 1 THEN << cv, po, fc >> ELSE IF c.b = 2 THEN << cv, po >> ELSE << po, fc >>
      nt0 == FoldLeft(LAMBDA n, L : NetAdd(n, L, LET v == NewBoundaries(n, L) IN [m \in 1..Len(v) |-> Zero(v[m])]), NewNet("trn"), ls)
      x  == Add(Scale(Pat(nt0.in, c.q + 3), 1000), [s |-> nt0.in, d |-> [n \in 1..Size(nt0.in) |-> 10 * n]])
      nt == NetInfer(nt0, x, InferVals(nt0.ls, x))
      g  == Pat(nt.out, c.q)
      igs == BackVals(nt.ls, nt.st, g)
      F(z) == LET v == InferVals(nt0.ls, z) IN Dot(g, v[Len(v)])
  IN  /\ NetInv(nt) /\ CanBackward(nt, g) /\ BoundaryGradsOK(nt, g, igs)
      /\ InferValuesOK(nt0, x, nt.st)
      /\ \A p \in D(Size(nt.in)) : F(Add(x, Basis(nt.in, p))) - F(x) = igs[1].d[p]
      /\ ~BoundaryGradsOK(nt, g, [igs EXCEPT ![1] = Add(@, Basis(nt.in, 1))])

----------------------------------------------------------------------------
Cases == CASE WHICH = "index" -> IndexCases [] WHICH = "elem" -> ElemCases [] WHICH = "mat" -> MatCases
           [] WHICH = "geom" -> GeomCases [] WHICH = "conv" -> ConvCases [] WHICH = "pool" -> PoolCases
           [] WHICH = "soft" -> SoftCases [] WHICH = "back" -> BackCases [] WHICH = "chain" -> ChainCases
Init == c \in Cases
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Holds == CASE WHICH = "index" -> IndexOK [] WHICH = "elem" -> ElemOK [] WHICH = "mat" -> MatOK
           [] WHICH = "geom" -> GeomOK [] WHICH = "conv" -> ConvOK [] WHICH = "pool" -> PoolOK
           [] WHICH = "soft" -> SoftOK [] WHICH = "back" -> BackOK [] WHICH = "chain" -> ChainOK
=============================================================================
