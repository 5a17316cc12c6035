------------------------------ MODULE Extended ------------------------------
(***************************************************************************)
(* Arithmetic with the special values of IEEE numbers: infinities and the  *)
(* not-a-number, next to ordinary integers.  The sums below do not depend  *)
(* on the order of their terms, so they are what any order of the loops of *)
(* the code must give.  The operations mirror those of module Tensors.     *)
(***************************************************************************)
EXTENDS Tensors

PInf == 1000000001
NInf == -1000000001
NaN  == 1000000003
Infinite(a)  == a = PInf \/ a = NInf
Ordinary(a)  == a # NaN /\ ~Infinite(a)

XMul(a, b) == IF a = NaN \/ b = NaN THEN NaN
              ELSE IF Infinite(a) \/ Infinite(b)
                   THEN IF a = 0 \/ b = 0 THEN NaN
                        ELSE IF (a > 0) = (b > 0) THEN PInf ELSE NInf
                   ELSE Mul(a, b)
XSum(seq) == LET S == { seq[n] : n \in 1..Len(seq) }
             IN  IF NaN \in S \/ (PInf \in S /\ NInf \in S) THEN NaN
                 ELSE IF PInf \in S THEN PInf
                 ELSE IF NInf \in S THEN NInf
                 ELSE Sum(seq)
XPlus(a, b) == XSum(<< a, b >>)

XAdd(a, b)    == Map2(a, b, XPlus)
XTimes(a, b)  == Map2(a, b, XMul)
XScale(a, c)  == Map1(a, LAMBDA x : XMul(x, c))
XAddFromIndex(a, r, idx) ==
  [s |-> r.s,
   d |-> [m \in 1..Len(r.d) |->
            XSum(<< r.d[m] >> \o [n \in 1..Len(idx) |-> IF idx[n] + 1 = m THEN a.d[n] ELSE 0])]]
XMatMul(a, b) ==
  Build(<<a.s[1], b.s[2], a.s[3]>>,
        LAMBDA i, j, k : XSum([m \in 1..a.s[2] |-> XMul(At(a,i,m-1,k), At(b,m-1,j,k))]))

\* every window meets every kernel element: special values meet the zeros of the other operand
XConvCell(img, ker, b, st, i, j) ==
  XSum(<< b >> \o
       [n \in 1..Size(ker.s) |->
          XMul(At(img, i*st + CI(ker.s,n-1), j*st + CJ(ker.s,n-1), CK(ker.s,n-1)), ker.d[n])])
XConvChannel(img, ker, b, st, r, ch) ==
  [s |-> r.s,
   d |-> [n \in 1..Len(r.d) |->
            IF CK(r.s, n-1) # ch THEN r.d[n]
            ELSE XConvCell(img, ker, b, st, CI(r.s,n-1), CJ(r.s,n-1))]]
\* only the products that take part in the derivative count: where no window puts a kernel
\* element on a pixel there is no product
XConvInputGrad(g, kers, st, imgshape) ==
  LET kd == << kers[1].s[1], kers[1].s[2], Len(kers) >>
  IN  Build(imgshape,
        LAMBDA a, b, c :
          XSum([n \in 1..Size(kd) |->
                LET ki == CI(kd,n-1)  kj == CJ(kd,n-1)  k == CK(kd,n-1)
                    i == (a - ki) \div st   j == (b - kj) \div st
                IN  IF ki <= a /\ kj <= b /\ st*i = a - ki /\ st*j = b - kj
                       /\ i < g.s[1] /\ j < g.s[2]
                    THEN XMul(At(g, i, j, k), At(kers[k+1], ki, kj, c)) ELSE 0]))
XConvKernelGrad(g, img, st, ch, kershape) ==
  Build(kershape,
        LAMBDA l, m, n :
          XSum([q \in 1..(g.s[1]*g.s[2]) |->
                LET i == (q-1) % g.s[1]  j == (q-1) \div g.s[1]
                IN  XMul(At(img, l + i*st, m + j*st, n), At(g, i, j, ch))]))
=============================================================================
