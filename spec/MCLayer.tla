------------------------------ MODULE MCLayer ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the life of one layer object: construction,   *)
(* re-filling, forward and backward calls with right and wrong shapes,     *)
(* clearing, mode switches, saving to and loading from records, damaged    *)
(* and hand-written records.  Every transition of the state graph is       *)
(* printed as a script (the calls that lead to its source state, then the  *)
(* call itself) which the harness replays on the real layer; the recorded  *)
(* replay is validated by TraceNet.                                        *)
(***************************************************************************)
EXTENDS RustyNetwork, Json

CONSTANTS KIND,      \* layer kind explored
          MAXPASS,   \* backward passes between two clearings
          MAXLEN,    \* length of a history
          EMIT       \* print scripts

VARIABLES L, rec, last, acc, h
vars == << L, rec, last, acc, h >>

One == Q
Pat(s, a, b, r) == [s |-> s, d |-> [n \in 1..Size(s) |-> (((n * a + b) % r) - (r \div 2)) * One]]
X(s, k) == IF KIND = "softmax" THEN [s |-> s, d |-> [n \in 1..Size(s) |-> (((n * (k + 1)) % 5) - 2) * (One \div 2)]]
           ELSE Pat(s, 2 * k + 1, k, 7)
G(s, k) == Pat(s, k + 1, 2 * k, 5)
Sc(v)   == [n \in 1..Len(v) |-> v[n] * One]
T(s, v) == [s |-> s, d |-> Sc(v)]
Z3 == << 0, 0, 0 >>
Arg(nm, p, nk, in, st, win) == [kind |-> KIND, name |-> nm, p |-> p, nk |-> nk, in |-> in, st |-> st, win |-> win]

Cat ==
  CASE KIND = "fc" ->
      << Arg("a", << T(<<2,3,1>>, <<1,-2,0,3,-1,1>>), T(<<2,1,1>>, <<1,0>>) >>, 0, Z3, 1, Z3),
         Arg("b", << T(<<2,3,1>>, <<-1,1,2,0,1,-3>>), T(<<2,1,1>>, <<0,2>>) >>, 0, Z3, 1, Z3),
         Arg("c", << T(<<1,2,2>>, <<2,-1,-2,1>>), T(<<1,1,2>>, <<-1,1>>) >>, 0, Z3, 1, Z3),
         Arg("bad", << T(<<2,3,1>>, <<1,1,1,1,1,1>>), T(<<3,1,1>>, <<1,1,1>>) >>, 0, Z3, 1, Z3) >>
    [] KIND = "conv" ->
      << Arg("a", << T(<<2,1,1>>, <<1,-1>>), T(<<2,1,1>>, <<2,1>>), T(<<1,1,1>>, <<1>>), T(<<1,1,1>>, <<-1>>) >>,
             2, <<3,2,1>>, 1, Z3),
         Arg("b", << T(<<2,1,1>>, <<-1,2>>), T(<<2,1,1>>, <<1,0>>), T(<<1,1,1>>, <<0>>), T(<<1,1,1>>, <<2>>) >>,
             2, <<3,2,1>>, 1, Z3),
         Arg("c", << T(<<1,2,2>>, <<1,-1,2,-2>>), T(<<1,1,1>>, <<1>>) >>, 1, <<3,2,2>>, 2, Z3),
         Arg("bad", << T(<<2,1,1>>, <<1,1>>), T(<<1,1,1>>, <<1>>) >>, 1, <<3,2,1>>, 0, Z3) >>
    [] KIND = "pool" ->
      << Arg("a", << >>, 0, <<4,2,1>>, 2, <<2,2,1>>),
         Arg("b", << >>, 0, <<3,2,1>>, 1, <<2,2,1>>),
         Arg("c", << >>, 0, <<2,2,2>>, 1, <<1,2,1>>),
         Arg("bad", << >>, 0, <<3,2,1>>, 2, <<4,2,1>>) >>
    [] KIND = "softmax" ->
      << Arg("a", << >>, 0, <<3,1,1>>, 1, Z3),
         Arg("b", << >>, 0, <<2,2,1>>, 1, Z3),
         Arg("c", << >>, 0, <<1,2,2>>, 1, Z3) >>

Off(s) == << s[1] + 1, s[2], s[3] >>
NoRec == [there |-> FALSE, ok |-> FALSE, r |-> << >>]

Mk(n)   == [op |-> "lmake", o |-> 1, args |-> Cat[n]]
Cmds ==
  { [op |-> "lfill", o |-> 1, args |-> Cat[n]] : n \in 1..Len(Cat) }
  \cup { [op |-> "lfwd", o |-> 1, x |-> X(L.in, k), y0 |-> G(L.out, k)] : k \in 1..2 }
  \cup { [op |-> "lfwd", o |-> 1, x |-> X(Off(L.in), 1), y0 |-> G(L.out, 1)],
         [op |-> "lfwd", o |-> 1, x |-> X(L.in, 1), y0 |-> G(Off(L.out), 1)] }
  \cup { [op |-> "lbwd", o |-> 1, g |-> G(L.out, k), gx0 |-> X(L.in, k)] : k \in 1..2 }
  \cup { [op |-> "lbwd", o |-> 1, g |-> G(Off(L.out), 1), gx0 |-> X(L.in, 2)],
         [op |-> "lbwd", o |-> 1, g |-> G(L.out, 1), gx0 |-> X(Off(L.in), 2)] }
  \cup { [op |-> "lclear", o |-> 1], [op |-> "ltrain", o |-> 1], [op |-> "linf", o |-> 1] }
  \cup (IF KIND = "fc" THEN { [op |-> "lset", o |-> 1, m |-> 1, v |-> 2], [op |-> "lset", o |-> 1, m |-> 2, v |-> -3] } ELSE {})
  \cup { [op |-> "lsave", o |-> 1, f |-> 1] }
  \cup { [op |-> "lraw", f |-> 1, args |-> Cat[n]] : n \in 2..Len(Cat) }
  \cup (IF rec.there THEN { [op |-> "lload", o |-> 1, f |-> 1] } ELSE {})
  \cup (IF rec.there /\ rec.ok THEN { [op |-> "ldamage", f |-> 1] } ELSE {})

Bwd(c) ==
  /\ Len(acc) < MAXPASS
  /\ IF L.mode = "trn" /\ L.fresh /\ BwdShapesOK(L, last, G(L.out, 1), c.g, c.gx0)
     THEN /\ L' = [L EXCEPT !.g = ParamGradAfter(L, last, c.g)]
          /\ acc' = Append(acc, << last, c.g, MemAfter(L, last) >>)
     ELSE UNCHANGED << L, acc >>
  /\ UNCHANGED << rec, last >>

Do(c) ==
  CASE c.op = "lfill" ->
         /\ IF ArgsOK(c.args) THEN L' = MakeLayer(c.args, L.mode) /\ acc' = << >> /\ last' = NoMem
            ELSE UNCHANGED << L, acc, last >>
         /\ UNCHANGED rec
    [] c.op = "lfwd" ->
         /\ IF FwdShapesOK(L, c.x, c.y0) THEN L' = AfterForward(L, c.x) /\ last' = c.x
            ELSE UNCHANGED << L, last >>
         /\ UNCHANGED << rec, acc >>
    [] c.op = "lbwd" -> Bwd(c)
    [] c.op = "lclear" -> L' = ClearGrads(L) /\ acc' = << >> /\ UNCHANGED << rec, last >>
    [] c.op \in {"ltrain", "linf"} ->
         /\ L' = Switch(L, IF c.op = "ltrain" THEN "trn" ELSE "inf")
         /\ acc' = << >> /\ UNCHANGED << rec, last >>
    [] c.op = "lset" -> L' = SetAll(L, c.m, c.v) /\ UNCHANGED << rec, last, acc >>
    [] c.op = "lsave" -> rec' = [there |-> TRUE, ok |-> TRUE, r |-> Record(L)] /\ UNCHANGED << L, last, acc >>
    [] c.op = "lraw" ->
         /\ rec' = [there |-> TRUE, ok |-> ArgsOK(c.args),
                    r |-> IF ArgsOK(c.args) THEN Record(MakeLayer(c.args, "inf")) ELSE << >>]
         /\ UNCHANGED << L, last, acc >>
    [] c.op = "ldamage" -> rec' = [rec EXCEPT !.ok = FALSE, !.r = << >>] /\ UNCHANGED << L, last, acc >>
    [] c.op = "lload" ->
         /\ IF rec.ok THEN L' = FromRecord(rec.r, L.mode) /\ acc' = << >> /\ last' = NoMem
            ELSE UNCHANGED << L, acc, last >>
         /\ UNCHANGED rec

Init == /\ \E n \in 1..Len(Cat) : ArgsOK(Cat[n]) /\ n # 3 /\ L = MakeLayer(Cat[n], "inf") /\ h = << Mk(n) >>
        /\ rec = NoRec /\ last = NoMem /\ acc = << >>

\* what follows a transition in its script: calls that show what the layer now remembers
Probe(K) == << [op |-> "lbwd", o |-> 1, g |-> G(K.out, 1), gx0 |-> X(K.in, 2)],
               [op |-> "lfwd", o |-> 1, x |-> X(K.in, 2), y0 |-> G(K.out, 2)],
               [op |-> "lbwd", o |-> 1, g |-> G(K.out, 2), gx0 |-> X(K.in, 1)] >>

Next == /\ Len(h) < MAXLEN
        /\ \E c \in Cmds :
             /\ Do(c)
             /\ h' = Append(h, c)
             /\ (~EMIT \/ PrintT("SCRIPT " \o ToJson([soft |-> IF KIND = "softmax" THEN 16 ELSE 0, net |-> IF KIND = "pool" THEN 1 ELSE 0, c |-> h' \o Probe(L')])))

Spec == Init /\ [][Next]_vars
View == << L, rec, last, Len(acc) >>

----------------------------------------------------------------------------
\* C14: gradients are the sum of the passes since the last clearing, each with the
\* mask of its own forward pass; they exist only in training mode
MaskOf(m) == [L EXCEPT !.mem = m]
RECURSIVE AccSum(_)
AccSum(a) == IF a = << >> THEN ZeroGrads(L.p, "trn")
             ELSE AddGrads(AccSum(Tail(a)), ParamGrad(MaskOf(a[1][3]), a[1][1], a[1][2]))
GradsAreSums == L.p # << >> /\ L.mode = "trn" => L.g = AccSum(acc)
NoGradsInInference == L.mode = "inf" => L.g = << >> /\ ~L.fresh
\* C15: the shapes a layer advertises are those of its function
ShapesTrue == LayerFun(L, X(L.in, 1)).s = L.out \/ KIND = "softmax"
\* C25, C24, C15: parameters come only from filling or loading
Given(p, q) == /\ Len(p) = Len(q)
               /\ \A m \in 1..Len(p) : p[m] = q[m] \/ (KIND = "fc" /\ p[m] = Fill(q[m].s, << 2, -3 >>[m]))
ParamsFromUser == \E n \in 1..Len(Cat) : ArgsOK(Cat[n]) /\ L.name = Cat[n].name /\ Given(L.p, Cat[n].p)
                                          /\ L.out = OutShape(Cat[n]) /\ L.in = InShape(Cat[n])
RecordRestores == rec.there /\ rec.ok =>
  \E n \in 1..Len(Cat) : /\ ArgsOK(Cat[n]) /\ Given(rec.r.p, Cat[n].p)
                          /\ [rec.r EXCEPT !.p = Cat[n].p] = Record(MakeLayer(Cat[n], "inf"))
\* every call either changes nothing or is one of the calls allowed to change that part
OnlyAllowed ==
  [][ /\ (L'.p # L.p \/ L'.name # L.name \/ L'.in # L.in) => h'[Len(h')].op \in {"lfill", "lload"}
                                                                   \cup (IF L'.name # L.name \/ L'.in # L.in THEN {} ELSE {"lset"})
      /\ L'.mode # L.mode => h'[Len(h')].op \in {"ltrain", "linf"}
      /\ L'.mem # L.mem => h'[Len(h')].op \in {"lfwd", "lfill", "lload", "ltrain", "linf"}
      /\ L'.g # L.g => h'[Len(h')].op \in {"lbwd", "lclear", "lfill", "lload", "ltrain", "linf"} ]_vars
=============================================================================
