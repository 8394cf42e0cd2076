----------------------------- MODULE MCHelpers -----------------------------
(***************************************************************************)
(* The grid helpers: the evenly spaced points, and the mesh as an odometer *)
(* whose last axis turns fastest, stepped combination by combination.      *)
(***************************************************************************)
EXTENDS Helpers, MCData, Relations, Json

CONSTANTS Deep, Record
VARIABLES kind, a, b, n, gs, dial, mesh
vars == <<kind, a, b, n, gs, dial, mesh>>

Ends == {"-7/3", "-1", "0", "1/8", "5", "100001"}
Axes == <<<<"2">>, <<"-1", "1/2">>, <<"0", "1", "4">>, <<"-3", "1", "5", "11/2">>>>
Lens == IF Deep THEN 0..17 ELSE 0..6
Init == \/ /\ kind = "lin" /\ a \in Ends /\ b \in Ends /\ n \in Lens /\ gs = <<>> /\ dial = <<>> /\ mesh = <<>>
        \/ /\ kind = "mesh" /\ a = "" /\ b = "" /\ n = 0 /\ mesh = <<>>
           /\ \E m \in 1..(IF Deep THEN 4 ELSE 3) : gs \in [1..m -> 1..(IF m = 4 THEN 2 ELSE 4)] /\ dial = [d \in 1..m |-> 0]

grids == [d \in 1..Len(gs) |-> Axes[gs[d]]]
Top(d) == Len(grids[d]) - 1
Stopped == \E d \in 1..Len(dial) : dial[d] > Top(d)
RECURSIVE Turn(_, _)
Turn(dl, d) == IF dl[d] < Top(d) \/ d = 1 THEN [dl EXCEPT ![d] = @ + 1] ELSE Turn([dl EXCEPT ![d] = 0], d - 1)
Step == /\ kind = "mesh" /\ ~Stopped
        /\ mesh' = Append(mesh, [d \in 1..Len(dial) |-> grids[d][dial[d] + 1]])
        /\ dial' = Turn(dial, Len(dial)) /\ UNCHANGED <<kind, a, b, n, gs>>
Next == Step
-----------------------------------------------------------------------------
A == RParse(a)  B == RParse(b)
\* the code: start, plus index times the increment
Lin == IF n < 2 THEN [i \in 1..n |-> RShow(A)]
       ELSE LET dx == RDiv(RSub(B, A), RInt(n - 1)) IN [i \in 1..n |-> RShow(RAdd(A, RMul(RInt(i - 1), dx)))]
IsLin == kind = "lin"
LinRight == IsLin => LinspaceOk(0, A, B, n, Lin)
LinEnds == (IsLin /\ n > 1) => REq(LinspaceAt(A, B, n, 1), A) /\ REq(LinspaceAt(A, B, n, n), B)
LinEven == (IsLin /\ n > 2) => \A i \in 2..(n - 1) :
             REq(RSub(LinspaceAt(A, B, n, i + 1), LinspaceAt(A, B, n, i)), RSub(LinspaceAt(A, B, n, i), LinspaceAt(A, B, n, i - 1)))
LinBack == (IsLin /\ n > 1) => \A i \in 1..n : REq(LinspaceAt(A, B, n, i), LinspaceAt(B, A, n, n + 1 - i))
Whole == kind = "mesh" /\ Stopped
MeshRight == Whole => MeshOk(grids, mesh)
\* every combination once
MeshComplete == Whole => /\ Len(mesh) = MeshCount_(grids, 1)
                         /\ \A p, q \in 1..Len(mesh) : p # q => mesh[p] # mesh[q]
\* C order: data laid out along the mesh are read back at its points
MeshReads ==
  (Whole /\ \A d \in 1..Len(grids) : Len(grids[d]) > 1) =>
    LET P == [m |-> "linear", g |-> "rectilinear", lin |-> FALSE, grids |-> [d \in 1..Len(grids) |-> List(grids[d])],
              vals |-> List([k \in 1..Len(mesh) |-> RShow(Mixed(k))])]
    IN  \A k \in 1..Len(mesh) : REq(Value(P, mesh[k]), Mixed(k)) /\ FlatIndex(Shape(P), Unflat(Shape(P), k - 1)) = k - 1
Halt == FALSE /\ UNCHANGED vars
Printed == Record => (IF IsLin THEN PrintT("SESSION " \o ToJson([x |-> a, y |-> b, n |-> n]))
                      ELSE mesh = <<>> => PrintT("SESSION " \o ToJson([grids |-> grids])))
=============================================================================
