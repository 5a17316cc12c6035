------------------------------ MODULE Softmax ------------------------------
(***************************************************************************)
(* Softmax over integers.  Inputs are in units of 1/4 (exact in f32), the  *)
(* exponential is tabulated: ExpTab[d+1] = 2^20 * exp(-d/4), rounded.      *)
(* Because only differences to the largest input occur, the definition has *)
(* no overflow or underflow, whatever the magnitude of the inputs.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

ExpTab == <<
   1048576, 816632, 635993, 495312, 385750, 300422, 233969, 182215,
   141909, 110519, 86072, 67033, 52206, 40658, 31664, 24660,
   19205, 14957, 11649, 9072, 7065, 5502, 4285, 3337,
   2599, 2024, 1576, 1228, 956, 745, 580, 452,
   352, 274, 213, 166, 129, 101, 78, 61,
   48, 37, 29, 22, 18, 14, 11, 8,
   6, 5, 4, 3, 2, 2, 1, 1,
   1, 1, 1 >>
ExpNeg(d) == IF d < Len(ExpTab) THEN ExpTab[d+1] ELSE 0

\* The same function with relative precision: exp(-d/4) = ExpMan[d+1] * 2^-ExpExp[d+1], 15-bit mantissas
ExpMan == <<
   16384, 25520, 19875, 30957, 24109, 18776, 29246, 22777, 17739, 27630, 21518, 16758, 26103, 20329,
   31664, 24660, 19205, 29914, 23297, 18144, 28261, 22010, 17141, 26699, 20793, 32388, 25224, 19644,
   30598, 23829, 18558, 28907, 22513, 17533, 27309, 21268, 16564, 25800, 20093, 31297, 24374, 18982,
   29567, 23027, 17933, 27933, 21754, 16942, 26389, 20552, 32012, 24931, 19416, 30243, 23553, 18343,
   28571, 22251, 17329, 26992, 21021, 32743, 25500, 19860, 30933, 24091, 18762, 29224, 22760, 17725,
   27609, 21502, 16746, 26083, 20313, 31640, 24641, 19191, 29891, 23280, 18130, 28239, 21993, 17128,
   26679, 20777, 32363, 25204, 19629, 30574, 23811, 18544, 28885, 22495, 17519, 27288, 21252, 16551,
   25780, 20078, 31273, 24355, 18968, 29545, 23009, 17920, 27912, 21738, 16929, 26369, 20536, 31987,
   24912, 19401, 30219, 23535, 18329, 28549, 22234, 17316, 26972, 21005, 32718, 25481, 19845, 30910,
   24073, 18748, 29202, 22742, 17712, 27588, 21485, 16733, 26063, 20298, 31616, 24623, 19176, 29869,
   23262, 18116, 28218, 21976, 17115, 26658, 20762, 32338, 25185, 19614, 30551, 23793, 18530, 28863,
   22478, 17506, 27267, 21236, 16539, 25760, 20062, 31249, 24337, 18954, 29522, 22992, 17906, 27890,
   21721, 16916, 26349, 20521, 31963, 24893, 19387, 30196, 23517, 18315, 28528, 22217, 17303, 26951,
   20989, 32693, 25461, 19829, 30886, 24054, 18734, 29179, 22725, 17698, 27567, 21469, 16720, 26043,
   20282, 31592, 24604, 19161, 29846, 23244, 18102, 28196, 21959, 17102, 26638, 20746, 32314, 25166,
   19599, 30528, 23775, 18516, 28841, 22461, 17493, 27247, 21220, 16526, 25741, 20047, 31225, 24318,
   18939, 29500, 22974, 17892, 27869, 21705, 16904, 26329, 20505, 31939, 24874, 19372, 30173, 23499,
   18301, 28506, 22200, 17290, 26930, 20973, 32668, 25442, 19814, 30863, 24036, 18719, 29157, 22708,
   17685, 27546, 21453, 16707, 26023, 20267, 31568, 24585, 19147, 29823, 23226, 18089, 28175, 21943,
   17089, 26618, 20730, 32289, 25147, 19584, 30505, 23757, 18502, 28819, 22444, 17479, 27226, 21204,
   16513, 25721, 20032, 31201, 24300, 18925, 29477, 22957, 17879, 27848, 21688, 16891, 26309, 20489,
   31914, 24855, 19357, 30150, 23481, 18287, 28484 >>
ExpExp == <<
   14, 15, 15, 16, 16, 16, 17, 17, 17, 18, 18, 18, 19, 19,
   20, 20, 20, 21, 21, 21, 22, 22, 22, 23, 23, 24, 24, 24,
   25, 25, 25, 26, 26, 26, 27, 27, 27, 28, 28, 29, 29, 29,
   30, 30, 30, 31, 31, 31, 32, 32, 33, 33, 33, 34, 34, 34,
   35, 35, 35, 36, 36, 37, 37, 37, 38, 38, 38, 39, 39, 39,
   40, 40, 40, 41, 41, 42, 42, 42, 43, 43, 43, 44, 44, 44,
   45, 45, 46, 46, 46, 47, 47, 47, 48, 48, 48, 49, 49, 49,
   50, 50, 51, 51, 51, 52, 52, 52, 53, 53, 53, 54, 54, 55,
   55, 55, 56, 56, 56, 57, 57, 57, 58, 58, 59, 59, 59, 60,
   60, 60, 61, 61, 61, 62, 62, 62, 63, 63, 64, 64, 64, 65,
   65, 65, 66, 66, 66, 67, 67, 68, 68, 68, 69, 69, 69, 70,
   70, 70, 71, 71, 71, 72, 72, 73, 73, 73, 74, 74, 74, 75,
   75, 75, 76, 76, 77, 77, 77, 78, 78, 78, 79, 79, 79, 80,
   80, 81, 81, 81, 82, 82, 82, 83, 83, 83, 84, 84, 84, 85,
   85, 86, 86, 86, 87, 87, 87, 88, 88, 88, 89, 89, 90, 90,
   90, 91, 91, 91, 92, 92, 92, 93, 93, 93, 94, 94, 95, 95,
   95, 96, 96, 96, 97, 97, 97, 98, 98, 99, 99, 99, 100, 100,
   100, 101, 101, 101, 102, 102, 103, 103, 103, 104, 104, 104, 105, 105,
   105, 106, 106, 106, 107, 107, 108, 108, 108, 109, 109, 109, 110, 110,
   110, 111, 111, 112, 112, 112, 113, 113, 113, 114, 114, 114, 115, 115,
   115, 116, 116, 117, 117, 117, 118, 118, 118, 119, 119, 119, 120, 120,
   121, 121, 121, 122, 122, 122, 123 >>
\* numbers as << mantissa, exponent >>, value m * 2^-e with 2^14 <= m < 2^15
FMul(a, b) == LET p == (a[1] * b[1]) \div 16384
              IN  IF p >= 32768 THEN << p \div 2, a[2] + b[2] - 15 >> ELSE << p, a[2] + b[2] - 14 >>
FNear(a, b, tol) ==
  \/ a[2] = b[2]     /\ a[1] - b[1] <= tol /\ b[1] - a[1] <= tol
  \/ a[2] = b[2] + 1 /\ a[1] - 2 * b[1] <= 2 * tol /\ 2 * b[1] - a[1] <= 2 * tol
  \/ b[2] = a[2] + 1 /\ b[1] - 2 * a[1] <= 2 * tol /\ 2 * a[1] - b[1] <= 2 * tol
\* ys[n]: probability of input xs[n] (quarters) as such a number: all ratios to the largest are right
RatiosOK(xs, ys) ==
  LET m == TLCEval(CHOOSE n \in 1..Len(xs) : \A q \in 1..Len(xs) : xs[q] <= xs[n])
  IN  \A n \in 1..Len(xs) :
        xs[m] - xs[n] < Len(ExpMan) =>
          FNear(ys[n], FMul(ys[m], << ExpMan[xs[m]-xs[n]+1], ExpExp[xs[m]-xs[n]+1] >>), 16)

\* floor(num/den * 2^bits) by long division (intermediate values stay below 2*den)
RECURSIVE LongDiv(_,_,_)
LongDiv(num, den, bits) ==
  IF bits = 0 THEN num \div den
  ELSE ((num \div den) * 2^bits) + LongDiv(2 * (num % den), den, bits - 1)

SMax(seq) == FoldLeft(LAMBDA a, b : IF a < b THEN b ELSE a, seq[1], seq)
SSum(seq) == FoldLeft(LAMBDA a, b : a + b, 0, seq)
SAbs(x)   == IF x < 0 THEN -x ELSE x

\* xs: inputs in units of 1/4;  result in units of 2^-bits
SoftmaxSeq(xs, bits) ==
  LET m == SMax(xs)
      w == TLCEval([n \in 1..Len(xs) |-> ExpNeg(m - xs[n])])
      W == SSum(w)
  IN  TLCEval([n \in 1..Len(xs) |-> LongDiv(w[n], W, bits)])

\* ys: observed probabilities in units of 2^-bits; gs: gradients (integers)
\* result in units of 2^-bits: y_i * (g_i - SUM y_j g_j)
SoftmaxGradSeq(ys, gs, one) ==
  LET dot == SSum([n \in 1..Len(ys) |-> ys[n] * gs[n]])          \* units of 1/one
  IN  TLCEval([n \in 1..Len(ys) |->
        \* y*(g*one - dot)/one, with the product split to stay within 32 bits
        LET t == gs[n] * one - dot
            a == SAbs(t)
            v == ((ys[n] * (a \div 1024)) \div (one \div 1024))
                 + ((ys[n] * (a % 1024)) \div one)
        IN  IF t < 0 THEN -v ELSE v])
=============================================================================
