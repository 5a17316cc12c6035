------------------------------ MODULE Tensors ------------------------------
(***************************************************************************)
(* Pure tensor algebra of rusty_network, written from the mathematical     *)
(* definitions (not from the loops of the code).                           *)
(*                                                                         *)
(* A shape is <<di,dj,dk>>; a tensor is [s |-> shape, d |-> Seq(Int)] with *)
(* the elements in storage order (first dimension fastest).  Numbers are   *)
(* integers: the conformance drivers choose data for which 32-bit floats   *)
(* are exact, in units of 1/Q, Q = 2^QBITS (QBITS = 0 except for traces with softmax).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANT QBITS
Q == 2^QBITS

Abs(x)    == IF x < 0 THEN -x ELSE x
MaxOf(a,b) == IF a < b THEN b ELSE a
Mul(a,b)  == IF Q = 1 THEN a * b ELSE (a * b) \div Q
Sum(seq)  == FoldLeft(LAMBDA a, b : a + b, 0, seq)

----------------------------------------------------------------------------
(* Shapes and addressing *)

Size(s)        == s[1] * s[2] * s[3]
Lin(s,i,j,k)   == i + s[1] * j + s[1] * s[2] * k           \* 0-based position
CI(s,n)        == n % s[1]                                  \* coordinates of 0-based position n
CJ(s,n)        == (n \div s[1]) % s[2]
CK(s,n)        == n \div (s[1] * s[2])
InRange(s,i,j,k) == i >= 0 /\ i < s[1] /\ j >= 0 /\ j < s[2] /\ k >= 0 /\ k < s[3]
TransShape(s)  == << s[2], s[1], s[3] >>

ShapeNew(a,b,c) == << MaxOf(a,1), MaxOf(b,1), MaxOf(c,1) >>   \* an absent dimension counts as one
StrideOf(s)    == << 1, s[1], s[1] * s[2] >>                  \* Lin(s,i,j,k) = stride . index

IsTensor(t)    == Len(t.d) = Size(t.s)
At(t,i,j,k)    == t.d[Lin(t.s,i,j,k) + 1]
Fill(s,v)      == [s |-> s, d |-> [n \in 1..Size(s) |-> v]]
Zero(s)        == Fill(s, 0)

\* element access of the API: out of range reads give 0, out of range writes do nothing
GetItem(t,i,j,k)   == IF InRange(t.s,i,j,k) THEN At(t,i,j,k) ELSE 0
SetItem(t,i,j,k,v) == IF InRange(t.s,i,j,k) THEN [t EXCEPT !.d[Lin(t.s,i,j,k) + 1] = v] ELSE t

----------------------------------------------------------------------------
(* Elementwise operations *)

Map1(a, F(_))        == [s |-> a.s, d |-> TLCEval([n \in 1..Len(a.d) |-> F(a.d[n])])]
Map2(a, b, F(_,_))   == [s |-> a.s, d |-> TLCEval([n \in 1..Len(a.d) |-> F(a.d[n], b.d[n])])]
Add(a,b)    == Map2(a, b, LAMBDA x, y : x + y)
Times(a,b)  == Map2(a, b, Mul)
Scale(a,c)  == Map1(a, LAMBDA x : Mul(x, c))
Relu(a)     == Map1(a, LAMBDA x : MaxOf(x, 0))
Mask(a,one) == Map1(a, LAMBDA x : IF x > 0 THEN one ELSE 0)

IndexListOK(a, r, idx) == /\ Len(idx) <= Size(a.s)
                          /\ \A n \in 1..Len(idx) : idx[n] < Size(r.s)
AddFromIndex(a, r, idx) ==
  [s |-> r.s,
   d |-> [m \in 1..Len(r.d) |->
            r.d[m] + Sum([n \in 1..Len(idx) |-> IF idx[n] + 1 = m THEN a.d[n] ELSE 0])]]

SumSquares(a) == Sum([n \in 1..Len(a.d) |-> a.d[n] * a.d[n]])
Inner(a,b)    == Sum([n \in 1..Len(a.d) |-> Mul(a.d[n], b.d[n])])

----------------------------------------------------------------------------
(* Transpose and matrix products, slice by slice *)

Build(s, F(_,_,_)) ==
  [s |-> s, d |-> TLCEval([n \in 1..Size(s) |-> F(CI(s,n-1), CJ(s,n-1), CK(s,n-1))])]

TransOK(a, r)     == r.s = TransShape(a.s)
Transpose(a)      == Build(TransShape(a.s), LAMBDA i, j, k : At(a, j, i, k))

MatShapesOK(s1, s2, sr) == /\ s1[3] = s2[3] /\ s1[3] = sr[3]
                           /\ s1[2] = s2[1] /\ s1[1] = sr[1] /\ s2[2] = sr[2]
MatMul(a, b) ==
  Build(<<a.s[1], b.s[2], a.s[3]>>,
        LAMBDA i, j, k : Sum([m \in 1..a.s[2] |-> Mul(At(a,i,m-1,k), At(b,m-1,j,k))]))
MatMulTFirst(a, b)  == MatMul(Transpose(a), b)
MatMulTSecond(a, b) == MatMul(a, Transpose(b))
MatMulAddRelu(x, w, b) == Relu(Add(MatMul(w, x), b))

----------------------------------------------------------------------------
(* Sliding windows: geometry shared by convolution and pooling *)

WinFits(img, win, st) ==
  /\ st >= 1
  /\ win[1] <= img[1] /\ win[2] <= img[2]
  /\ (img[1] - win[1]) % st = 0 /\ (img[2] - win[2]) % st = 0
WinCount(img, win, st) == << (img[1] - win[1]) \div st + 1, (img[2] - win[2]) \div st + 1 >>
WinOutShape(img, win, st, depth) ==
  << (img[1] - win[1]) \div st + 1, (img[2] - win[2]) \div st + 1, depth >>

ConvShapesOK(img, ker, st, res, ch) ==
  /\ img[3] = ker[3]
  /\ WinFits(img, ker, st)
  /\ res[1] = WinCount(img, ker, st)[1] /\ res[2] = WinCount(img, ker, st)[2]
  /\ ch < res[3]

ConvCell(img, ker, st, i, j) ==
  Sum([n \in 1..Size(ker.s) |->
         Mul(At(img, i*st + CI(ker.s,n-1), j*st + CJ(ker.s,n-1), CK(ker.s,n-1)), ker.d[n])])

\* one output channel: every position of channel ch is rewritten, the rest of r stays
ConvChannel(img, ker, b, st, r, ch, relu) ==
  [s |-> r.s,
   d |-> [n \in 1..Len(r.d) |->
            IF CK(r.s, n-1) # ch THEN r.d[n]
            ELSE LET v == ConvCell(img, ker, st, CI(r.s,n-1), CJ(r.s,n-1)) + b
                 IN  IF relu THEN MaxOf(v, 0) ELSE v]]

\* the full convolution with one kernel and bias per output channel
ConvAll(img, kers, bs, st) ==
  Build(WinOutShape(img.s, kers[1].s, st, Len(kers)),
        LAMBDA i, j, k : ConvCell(img, kers[k+1], st, i, j) + bs[k+1].d[1])

\* adjoint with respect to the image: image element (a,b,c) was multiplied with kernel
\* element (ki,kj,c) of kernel k exactly when st*(i,j) + (ki,kj) = (a,b) for an output (i,j)
ConvInputGrad(g, kers, st, imgshape) ==
  LET kd == << kers[1].s[1], kers[1].s[2], Len(kers) >>
  IN  Build(imgshape,
        LAMBDA a, b, c :
          Sum([n \in 1..Size(kd) |->
                LET ki == CI(kd,n-1)  kj == CJ(kd,n-1)  k == CK(kd,n-1)
                    i == (a - ki) \div st   j == (b - kj) \div st
                IN  IF ki <= a /\ kj <= b /\ st*i = a - ki /\ st*j = b - kj
                       /\ i < g.s[1] /\ j < g.s[2]
                    THEN Mul(At(g, i, j, k), At(kers[k+1], ki, kj, c)) ELSE 0]))
ConvInputGradOK(g, kers, st, imgshape) ==
  /\ Len(kers) = g.s[3]
  /\ \A n \in 1..Len(kers) : /\ kers[n].s = kers[1].s
                              /\ ConvShapesOK(imgshape, kers[n].s, st, g.s, n-1)

\* adjoint with respect to the kernel of output channel ch
ConvKernelGrad(g, img, st, ch, kershape) ==
  Build(kershape,
        LAMBDA l, m, n :
          Sum([q \in 1..(g.s[1]*g.s[2]) |->
                LET i == (q-1) % g.s[1]  j == (q-1) \div g.s[1]
                IN  Mul(At(img, l + i*st, m + j*st, n), At(g, i, j, ch))]))
\* adjoint with respect to the bias of output channel ch
ConvBiasGrad(g, ch) == Sum([q \in 1..(g.s[1]*g.s[2]) |-> g.d[ch*g.s[1]*g.s[2] + q]])

----------------------------------------------------------------------------
(* Max pooling *)

PoolShapesOK(img, win, st, res) ==
  /\ res[3] = img[3]
  /\ WinFits(img, win, st)
  /\ res[1] = WinCount(img, win, st)[1] /\ res[2] = WinCount(img, win, st)[2]

\* 0-based storage positions of the window of output element n (1-based) of result shape rs
Window(imgshape, win, st, rs, n) ==
  LET i == CI(rs,n-1)  j == CJ(rs,n-1)  k == CK(rs,n-1)
  IN  [q \in 1..(win[1]*win[2]) |->
        Lin(imgshape, i*st + ((q-1) % win[1]), j*st + ((q-1) \div win[1]), k)]
WindowMax(img, w) == FoldLeft(LAMBDA m, p : MaxOf(m, img.d[p+1]), img.d[w[1]+1], w)
Pool(img, win, st) ==
  LET rs == WinOutShape(img.s, win, st, img.s[3])
  IN  [s |-> rs, d |-> [n \in 1..Size(rs) |-> WindowMax(img, Window(img.s, win, st, rs, n))]]
\* the positions a window's maximum may be attributed to
ArgMax(img, win, st, rs, n) ==
  LET w == Window(img.s, win, st, rs, n)
      m == WindowMax(img, w)
  IN  { w[q] : q \in { q \in 1..Len(w) : img.d[w[q]+1] = m } }
OriginsOK(img, win, st, rs, org) ==
  /\ Len(org) = Size(rs)
  /\ \A n \in 1..Size(rs) : org[n] \in ArgMax(img, win, st, rs, n)

\* gradient routed along a given choice of origins
PoolGradAlong(g, org, imgshape) == AddFromIndex(g, Zero(imgshape), org)

RECURSIVE SubsetSums(_)
SubsetSums(seq) == IF seq = << >> THEN {0}
                   ELSE LET R == SubsetSums(Tail(seq)) IN R \cup { x + Head(seq) : x \in R }

\* the windows (result elements, 1-based) that a pixel (0-based position) belongs to
Covering(imgshape, win, st, rs, p) ==
  LET lo(x, w) == IF x < w THEN 0 ELSE (x - w) \div st + 1
      hi(x, n) == IF x \div st < n THEN x \div st ELSE n - 1
      x  == CI(imgshape, p)  y == CJ(imgshape, p)
      i0 == lo(x, win[1])  ni == hi(x, rs[1]) - i0 + 1
      j0 == lo(y, win[2])  nj == hi(y, rs[2]) - j0 + 1
  IN  IF ni <= 0 \/ nj <= 0 THEN << >>
      ELSE [q \in 1..(ni*nj) |-> Lin(rs, i0 + ((q-1) % ni), j0 + ((q-1) \div ni), CK(imgshape, p)) + 1]

\* The routed gradient gx is explained by some choice of maximal positions.  With a
\* unique maximum per window this is equality; ties leave the choice to the code.
PoolGradOK(img, win, st, g, gx, Close(_,_)) ==
  LET rs  == g.s
      am  == TLCEval([n \in 1..Size(rs) |-> ArgMax(img, win, st, rs, n)])
      one == TLCEval([n \in 1..Size(rs) |-> Cardinality(am[n]) = 1])
      ties == \E n \in 1..Size(rs) : ~one[n]
      \* the windows whose gradient pixel m may get: c, among them those it surely gets
      mine(m) == SelectSeq(Covering(img.s, win, st, rs, m-1), LAMBDA n : (m-1) \in am[n])
      base(c) == Sum([q \in 1..Len(c) |-> IF one[c[q]] THEN g.d[c[q]] ELSE 0])
      loose(c) == LET S == SelectSeq(c, LAMBDA n : ~one[n]) IN [q \in 1..Len(S) |-> g.d[S[q]]]
  IN  /\ gx.s = img.s
      /\ \A m \in 1..Size(img.s) :
           LET c == mine(m)
           IN  IF ~ties THEN Close(gx.d[m], base(c))
               ELSE \E v \in SubsetSums(loose(c)) : Close(gx.d[m], base(c) + v)
      /\ (ties => Close(Sum(gx.d), Sum(g.d)))
=============================================================================
