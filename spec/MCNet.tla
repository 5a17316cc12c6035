------------------------------- MODULE MCNet -------------------------------
(***************************************************************************)
(* Exhaustive exploration of networks and network files over a small       *)
(* catalogue of layers: adding (fitting and not), mode switches, inference *)
(* and backpropagation with right and wrong shapes, saving, loading into   *)
(* empty, matching and non-matching networks, torn and missing files.      *)
(* Every transition is printed as a script replayed on the real library.   *)
(***************************************************************************)
EXTENDS RustyNetwork, Json

CONSTANTS NNETS, NFILES,   \* networks and files
          ADDTO,           \* layers are added only to networks 1..ADDTO (others only load)
          MAXLAYERS,       \* layers in a network
          MAXPASS,         \* backward passes between two clearings
          MAXLEN,          \* length of a history
          EMIT

VARIABLES nets, files, passes, h
vars == << nets, files, passes, h >>

Z3 == << 0, 0, 0 >>
T(s, v) == [s |-> s, d |-> v]
A(kind, nm, p, nk, in, st, win) == [kind |-> kind, name |-> nm, p |-> p, nk |-> nk, in |-> in, st |-> st, win |-> win]
Cat ==
  << A("fc", "f", << T(<<2,2,1>>, <<1,-1,2,1>>), T(<<2,1,1>>, <<1,-2>>) >>, 0, Z3, 1, Z3),                    \* 2 -> 2
     A("conv", "c", << T(<<2,1,1>>, <<1,-1>>), T(<<1,1,1>>, <<1>>) >>, 1, <<3,1,1>>, 1, Z3),                  \* 3 -> 2
     A("fc", "g", << T(<<3,2,1>>, <<1,0,-1,-1,2,1>>), T(<<3,1,1>>, <<0,1,-1>>) >>, 0, Z3, 1, Z3),             \* 2 -> 3
     A("pool", "p", << >>, 0, <<3,1,1>>, 1, <<2,1,1>>) >>                                                     \* 3 -> 2
X(s, k) == [s |-> s, d |-> [n \in 1..Size(s) |-> ((n * (2 * k + 1) + k) % 5) - 1]]
G(s, k) == [s |-> s, d |-> [n \in 1..Size(s) |-> ((n * (k + 2)) % 5) - 2]]
Base(s) == IF s = Z3 THEN <<2,1,1>> ELSE s
Off(s)  == << s[1], s[2] + 1, s[3] >>

Layer(n) == MakeLayer(Cat[n], "inf")
Name(n)  == IF n = 1 THEN "trn" ELSE "inf"

Cmds(n) ==
  LET nt == nets[n]
  IN
  (IF n <= ADDTO /\ Len(nt.ls) < MAXLAYERS THEN { [op |-> "add", n |-> n, m |-> m] : m \in 1..Len(Cat) } ELSE {})
  \cup { [op |-> o, n |-> n] : o \in {"ntrain", "ninf"} }
  \cup { [op |-> "nnew", n |-> n, mode |-> nt.rs] }
  \cup { [op |-> "ninfer", n |-> n, x |-> X(Base(nt.in), k)] : k \in 1..2 }
  \cup { [op |-> "ninfer", n |-> n, x |-> X(Off(Base(nt.in)), 1)] }
  \cup (IF passes[n] < MAXPASS THEN { [op |-> "nback", n |-> n, g |-> G(Base(nt.out), k)] : k \in 1..2 } ELSE {})
  \cup { [op |-> "nback", n |-> n, g |-> G(Off(Base(nt.out)), 1)] }
  \cup { [op |-> "nsave", n |-> n, f |-> f] : f \in 1..NFILES }
  \cup { [op |-> "nload", n |-> n, f |-> f] : f \in { f \in 1..NFILES : Len(nt.ls) + Len(files[f].rs) <= MAXLAYERS + 1 } }
FCmds == { [op |-> o, f |-> f] : o \in {"ftear", "fremove"}, f \in { f \in 1..NFILES : files[f].ok } }

Script(c) == IF c.op = "add" THEN << [op |-> "lmake", o |-> 9, args |-> Cat[c.m]], [op |-> "nadd", n |-> c.n, o |-> 9] >>
             ELSE << c >>

SetN(n, v) == nets' = [nets EXCEPT ![n] = v]
Pass(n, v) == passes' = [passes EXCEPT ![n] = v]
Keep == UNCHANGED << nets, passes >>

Do(c) ==
  IF c.op \in {"ftear", "fremove"} THEN files' = [files EXCEPT ![c.f] = Torn] /\ Keep
  ELSE
  LET n == c.n  nt == nets[n]
  IN
  CASE c.op = "add" ->
         /\ IF CanAdd(nt, Layer(c.m))
            THEN SetN(n, NetAdd(nt, Layer(c.m), LET b == NewBoundaries(nt, Layer(c.m)) IN [q \in 1..Len(b) |-> Zero(b[q])]))
            ELSE UNCHANGED nets
         /\ UNCHANGED << files, passes >>
    [] c.op \in {"ntrain", "ninf"} ->
         SetN(n, NetSwitch(nt, IF c.op = "ntrain" THEN "trn" ELSE "inf")) /\ Pass(n, 0) /\ UNCHANGED files
    [] c.op = "nnew" -> SetN(n, NewNet(IF nt.rs = "trn" THEN "trn" ELSE "inf")) /\ Pass(n, 0) /\ UNCHANGED files
    [] c.op = "ninfer" ->
         /\ IF CanInfer(nt, c.x) THEN SetN(n, NetInfer(nt, c.x, InferVals(nt.ls, c.x))) ELSE UNCHANGED nets
         /\ UNCHANGED << files, passes >>
    [] c.op = "nback" ->
         /\ IF CanBackward(nt, c.g) /\ (\A m \in 1..Len(nt.ls) : nt.ls[m].fresh)
            THEN LET igs == BackVals(nt.ls, nt.st, c.g)
                 IN  SetN(n, NetBackward(nt, [m \in 1..Len(nt.ls) |-> LayerGradsAfter(nt, m, igs)]))
                     /\ Pass(n, passes[n] + 1)
            ELSE UNCHANGED << nets, passes >>
         /\ UNCHANGED files
    [] c.op = "nsave" -> files' = [files EXCEPT ![c.f] = SavedAs(nt)] /\ Keep
    [] c.op = "nload" ->
         /\ IF CanLoad(nt, files[c.f])
            THEN SetN(n, NetLoad(nt, files[c.f], LET b == LoadBoundaries(nt, files[c.f]) IN [q \in 1..Len(b) |-> Zero(b[q])]))
            ELSE UNCHANGED nets
         /\ UNCHANGED << files, passes >>

Start0 == [n \in 1..NNETS |-> [op |-> "nnew", n |-> n, mode |-> Name(n)]]
Init == /\ nets = [n \in 1..NNETS |-> NewNet(Name(n))]
        /\ files = [f \in 1..NFILES |-> Missing]
        /\ passes = [n \in 1..NNETS |-> 0]
        /\ h = Start0

\* calls that show what every network now remembers
Probe == FlattenSeq([n \in 1..NNETS |->
           << [op |-> "nback", n |-> n, g |-> G(Base(nets'[n].out), 1)],
              [op |-> "ninfer", n |-> n, x |-> X(Base(nets'[n].in), 2)],
              [op |-> "nback", n |-> n, g |-> G(Base(nets'[n].out), 2)] >>])

Next == /\ TLCGet("level") <= MAXLEN
        /\ \E c \in UNION { Cmds(n) : n \in 1..NNETS } \cup FCmds :
             /\ Do(c)
             /\ h' = h \o Script(c)
             /\ (~EMIT \/ PrintT("SCRIPT " \o ToJson([soft |-> 0, net |-> 1, c |-> h' \o Probe])))

Spec == Init /\ [][Next]_vars
View == << nets, files, passes >>

----------------------------------------------------------------------------
Invariants == \A n \in 1..NNETS : NetInv(nets[n])
\* C18: once an inference reached all layers the boundary values are the composition
Composition ==
  \A n \in 1..NNETS :
    LET nt == nets[n]
    IN  (nt.ls # << >> /\ \A m \in 1..Len(nt.ls) : nt.ls[m].fresh) => nt.st = InferVals(nt.ls, nt.st[1])
\* C21: a good file can be loaded into an empty network and gives the same function
FilesUsable ==
  \A f \in 1..NFILES :
    files[f].ok =>
      LET fresh == NewNet("inf")
          b  == LoadBoundaries(fresh, files[f])
          nt == NetLoad(fresh, files[f], [q \in 1..Len(b) |-> Zero(b[q])])
      IN  CanLoad(fresh, files[f]) /\ NetInv(nt) /\ [m \in 1..Len(nt.ls) |-> Record(nt.ls[m])] = files[f].rs
\* C22: a torn or missing file never loads
TornRefused == \A n \in 1..NNETS, f \in 1..NFILES : ~files[f].ok => ~CanLoad(nets[n], files[f])
\* C26: networks do not influence each other; C25: parameters are never changed by running
Independent ==
  [][ \A n \in 1..NNETS : nets'[n] # nets[n] =>
        LET c == h'[Len(h')] IN c.op # "fremove" /\ c.op # "ftear" /\ c.op # "nsave" /\ c.n = n ]_vars
ParamsKept ==
  [][ \A n \in 1..NNETS :
        LET k == Len(nets[n].ls)
            c == h'[Len(h')]
        IN  c.op = "nnew" \/ /\ Len(nets'[n].ls) >= k
                             /\ \A m \in 1..k : Record(nets'[n].ls[m]) = Record(nets[n].ls[m]) ]_vars
=============================================================================
