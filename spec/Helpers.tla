------------------------------ MODULE Helpers ------------------------------
(* The grid helpers: evenly spaced points and mesh grids. *)
EXTENDS Rules

\* n points from a to b with equal increments (n = 1: just a; n = 0: none)
LinspaceAt(a, b, n, i) == IF n = 1 THEN a ELSE RAdd(a, RMul(R(i - 1, n - 1), RSub(b, a)))
LinspaceTol(e, a, b) == IF e = 0 THEN Zero ELSE RMul(RPow2(4 - e), RAdd(RAbs(a), RAbs(b)))
LinspaceOk(e, a, b, n, out) ==
  /\ Len(out) = n
  /\ \A i \in 1..n : /\ IsNum(out[i])
                     /\ RLe(RAbs(RSub(RParse(out[i]), LinspaceAt(a, b, n, i))), LinspaceTol(e, a, b))

RECURSIVE MeshCount_(_, _)
MeshCount_(gs, d) == IF d > Len(gs) THEN 1 ELSE Len(gs[d]) * MeshCount_(gs, d + 1)
\* index along axis d of the k-th combination (k from 0), last axis fastest
MeshIx(gs, d, k) == (k \div MeshCount_(gs, d + 1)) % Len(gs[d])
MeshOk(gs, out) ==       \* out: the sequence of combinations
  /\ Len(out) = MeshCount_(gs, 1)
  /\ \A k \in 1..Len(out) :
       /\ Len(out[k]) = Len(gs)
       /\ \A d \in 1..Len(gs) : SameNum(out[k][d], gs[d][MeshIx(gs, d, k - 1) + 1])
=============================================================================
