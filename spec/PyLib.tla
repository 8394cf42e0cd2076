------------------------------- MODULE PyLib -------------------------------
(***************************************************************************)
(* The Python package as a state machine over memory.                      *)
(*                                                                         *)
(* The caller owns buffers of numbers; arrays are strided views of them    *)
(* (several arrays may share a buffer) and may be read-only.  Raw          *)
(* functions and the helper read arrays and write one; interpolator        *)
(* objects are snapshots taken at construction; documents are what an      *)
(* object was dumped to, or what somebody wrote by hand.                   *)
(***************************************************************************)
EXTENDS Bounds, Judge

VARIABLES bufs,    \* buffer -> [dt, v]
          arrs,    \* array  -> [b, off, shape, strides, ro]
          pobjs,   \* object -> problem record with field dt
          docs     \* document -> [has, ...fields]
py == <<bufs, arrs, pobjs, docs>>
PyInit == bufs = <<>> /\ arrs = <<>> /\ pobjs = <<>> /\ docs = <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

-----------------------------------------------------------------------------
(* Arrays *)

RECURSIVE IProd_(_, _)
IProd_(s, d) == IF d > Len(s) THEN 1 ELSE s[d] * IProd_(s, d + 1)
Size(a) == IProd_(arrs[a].shape, 1)
DT(a) == bufs[arrs[a].b].dt
NDim(a) == Len(arrs[a].shape)
\* Buffer position (from 1) of element k (from 0, C order) of array a
RECURSIVE Addr_(_, _, _, _)
Addr_(sh, st, d, k) == IF d = 0 THEN 0
                       ELSE (k % sh[d]) * st[d] + Addr_(sh, st, d - 1, k \div sh[d])
Addr(a, k) == 1 + arrs[a].off + Addr_(arrs[a].shape, arrs[a].strides, NDim(a), k)
RECURSIVE Packed_(_, _)
Packed_(sh, d) == IF d > Len(sh) THEN <<>> ELSE <<IProd_(sh, d + 1)>> \o Packed_(sh, d + 1)
Packed(sh) == Packed_(sh, 1)       \* strides of a gapless array of that shape
Cells(a) == {Addr(a, k) : k \in 0..(Size(a) - 1)}
ContentIn(B, a) == [k \in 1..Size(a) |-> B[arrs[a].b].v[Addr(a, k - 1)]]
Content(a) == ContentIn(bufs, a)
\* One-dimensional and without gaps
Flat1(a) == NDim(a) = 1 /\ (Size(a) <= 1 \/ arrs[a].strides[1] = 1)
Overlap(a, c) == arrs[a].b = arrs[c].b /\ Cells(a) \cap Cells(c) # {}

Bits(dt) == IF dt = "f32" THEN 24 ELSE 53
Judging(dt) == [e |-> Bits(dt), chk |-> <<"value">>]
ListAx(v) == [k |-> "list", v |-> v]

-----------------------------------------------------------------------------
(* Interpolators: which problems the classes accept *)

Positions(s) == 1..Len(s)
PyAxesOk(P) ==
  IF P.g = "regular"
  THEN /\ Len(P.starts) = Len(P.dims) /\ Len(P.steps) = Len(P.dims)
       /\ \A d \in Positions(P.dims) : P.dims[d] >= MinNodes(P.m)
       /\ \A d \in Positions(P.steps) : Positive(P.steps[d])
  ELSE \A d \in Positions(P.grids) :
         LET v == P.grids[d].v IN
         /\ Len(v) >= MinNodes(P.m)
         /\ \A i \in 1..(Len(v) - 1) : Above(v[i + 1], v[i])
MaxPy(m) == IF m = "nearest" THEN 6 ELSE 8
PyProblemOk(P) == /\ NDims(P) >= 1 /\ NDims(P) <= MaxPy(P.m)
                  /\ PyAxesOk(P)
                  /\ REq(Product(DimsOf(P)), RInt(Len(P.vals.v)))

\* Fields of the classes, and documents
Fields(m, g) == (IF g = "regular" THEN {"dims", "starts", "steps", "vals"} ELSE {"grids", "vals"})
                \cup (IF m = "cubic" THEN {"linearize_extrapolation"} ELSE {})
Has_(doc) == {doc.has[k] : k \in Positions(doc.has)}
DocArrays(g, doc) == IF g = "regular" THEN <<doc.starts, doc.steps, doc.vals>> ELSE Append(doc.grids, doc.vals)
DocProblem(m, g, doc) ==
  [m |-> m, g |-> g, lin |-> IF m = "cubic" THEN doc.lin ELSE FALSE,
   dt |-> doc.vals.dt,
   dims |-> IF g = "regular" THEN doc.dims ELSE <<>>,
   starts |-> IF g = "regular" THEN doc.starts.v ELSE <<>>,
   steps |-> IF g = "regular" THEN doc.steps.v ELSE <<>>,
   grids |-> IF g = "regular" THEN <<>> ELSE [d \in Positions(doc.grids) |-> ListAx(doc.grids[d].v)],
   vals |-> ListAx(doc.vals.v)]
DocOk(m, g, doc) ==
  /\ ~doc.junk /\ Has_(doc) = Fields(m, g)
  /\ LET as == DocArrays(g, doc) IN
     \A k \in Positions(as) : as[k].form \in {"str", "list"} /\ as[k].dt = doc.vals.dt /\ as[k].dt \in {"f64", "f32"}
  /\ PyProblemOk(DocProblem(m, g, doc))
Dumped(P) ==
  LET arr(v) == [dt |-> P.dt, form |-> "str", v |-> v] IN
  [junk |-> FALSE,
   has |-> (IF P.g = "regular" THEN <<"dims", "starts", "steps", "vals">> ELSE <<"grids", "vals">>)
           \o (IF P.m = "cubic" THEN <<"linearize_extrapolation">> ELSE <<>>),
   dims |-> P.dims, starts |-> arr(P.starts), steps |-> arr(P.steps),
   grids |-> [d \in Positions(P.grids) |-> arr(P.grids[d].v)], vals |-> arr(P.vals.v), lin |-> P.lin]

-----------------------------------------------------------------------------
(* Calls.  c: [P (problem, with dt), ins (input arrays), obs (their contents, *)
(* one per axis), nobs, out (array or 0), n (output length)]                  *)

InputOk(a, dt) == DT(a) = dt /\ Flat1(a)
Typed(ins, dt) == \A k \in Positions(ins) : InputOk(ins[k], dt)
\* The output may not be read-only nor share memory with an input.
OutFree(ins, out) == ~arrs[out].ro /\ \A k \in Positions(ins) : ~Overlap(ins[k], out)

\* The core only looks at the first two nodes of a grid; what comes out for
\* grids that are not ascending further on is nobody's promise.
Ascending(P) == P.g = "regular" \/ \A d \in Positions(P.grids) :
                  \A i \in 1..(Len(P.grids[d].v) - 1) : Above(P.grids[d].v[i + 1], P.grids[d].v[i])
\* The results ys (sequence) of the points obs of problem P are right.
ResultsOk(P, obs, ys) ==
  Ascending(P) => \A j \in Positions(ys) : PointOk(Judging(P.dt), P, [d \in Positions(obs) |-> obs[d][j]], ys[j])
\* An evaluation of well-formed input may give up at a point it cannot handle.
GaveUp(P, obs, pre, now) ==
  \E k \in 0..(Len(pre) - 1) :
    /\ \E j \in (k + 1)..Len(pre) : MayFail(P, [d \in Positions(obs) |-> obs[d][j]])
    /\ \A j \in (k + 1)..Len(pre) : SameNum(now[j], pre[j])
    /\ ResultsOk(P, obs, SubSeq(now, 1, k))

-----------------------------------------------------------------------------
(* What the arguments of an operation ev say *)

Contents(as) == [k \in Positions(as) |-> Content(as[k])]
RawProblem(ev) ==
  [m |-> IF ev.f = "cb" THEN "linear" ELSE ev.f, g |-> ev.g, lin |-> ev.lin, dt |-> ev.dt,
   dims |-> IF ev.g = "regular" THEN ev.dims ELSE <<>>,
   starts |-> IF ev.g = "regular" THEN Content(ev.starts) ELSE <<>>,
   steps |-> IF ev.g = "regular" THEN Content(ev.steps) ELSE <<>>,
   grids |-> IF ev.g = "regular" THEN <<>> ELSE [k \in Positions(ev.grids) |-> ListAx(Content(ev.grids[k]))],
   vals |-> ListAx(IF ev.f = "cb" THEN <<>> ELSE Content(ev.vals))]
RawInputs(ev) == (IF ev.g = "regular" THEN <<ev.starts, ev.steps>> ELSE ev.grids)
             \o (IF ev.f = "cb" THEN <<>> ELSE <<ev.vals>>) \o ev.obs
OutType(ev) == IF ev.f = "cb" THEN "bool" ELSE ev.dt
DimOk(v) == IF IsNum(v) THEN RLe(Zero, RParse(v)) /\ RLt(RParse(v), RPow2(64)) ELSE FALSE
CountsOk(ev) == ev.drop = 0 /\ Len(ev.obs) <= 8 /\ Len(ev.grids) <= 8 /\ \A d \in Positions(ev.dims) : DimOk(ev.dims[d])
BitsOf(P, d, at) == BoundsSlack(Bits(P.dt), P, d, at)

HelperProblem(ev, dt) ==
  LET gs == Contents(ev.grids) IN
  IF ev.assume
  THEN [m |-> ev.method, g |-> "regular", lin |-> ev.lin, dt |-> dt,
        dims |-> [d \in Positions(gs) |-> Len(gs[d])],
        starts |-> [d \in Positions(gs) |-> gs[d][1]],
        steps |-> [d \in Positions(gs) |-> RSub(RParse(gs[d][2]), RParse(gs[d][1]))],
        grids |-> <<>>, vals |-> ListAx(Content(ev.vals))]
  ELSE [m |-> ev.method, g |-> "rectilinear", lin |-> ev.lin, dt |-> dt, dims |-> <<>>, starts |-> <<>>, steps |-> <<>>,
        grids |-> [d \in Positions(gs) |-> ListAx(gs[d])], vals |-> ListAx(Content(ev.vals))]

CtorArrays(ev) == IF ev.g = "regular" THEN <<ev.starts, ev.steps, ev.vals>> ELSE Append(ev.grids, ev.vals)
CtorTypes(ev) == IF ev.g = "regular" THEN <<ev.types[1], ev.types[2], ev.types[3]>> ELSE ev.types
CtorProblem(ev, dt) ==
  [m |-> ev.m, g |-> ev.g, lin |-> IF ev.m = "cubic" THEN ev.lin ELSE FALSE, dt |-> dt,
   dims |-> IF ev.g = "regular" THEN ev.dims ELSE <<>>,
   starts |-> IF ev.g = "regular" THEN Content(ev.starts) ELSE <<>>,
   steps |-> IF ev.g = "regular" THEN Content(ev.steps) ELSE <<>>,
   grids |-> IF ev.g = "regular" THEN <<>> ELSE [k \in Positions(ev.grids) |-> ListAx(Content(ev.grids[k]))],
   vals |-> ListAx(Content(ev.vals))]
Flat(a) == NDim(a) = 1
\* .new() flattens (regular grids, values) and casts to the type of the values;
\* the constructor takes arrays as they are, with the types they are wrapped in.
CtorDT(ev) == IF ev.via = "new" THEN DT(ev.vals) ELSE CtorTypes(ev)[Len(CtorTypes(ev))]
CtorOk(ev) ==
  /\ CtorDT(ev) \in {"f64", "f32"} /\ PyProblemOk(CtorProblem(ev, CtorDT(ev)))
  /\ IF ev.via = "new"
     THEN \A k \in Positions(ev.grids) : Flat(ev.grids[k])
     ELSE \A k \in Positions(CtorArrays(ev)) : Flat(CtorArrays(ev)[k]) /\ CtorTypes(ev)[k] = CtorDT(ev)
=============================================================================
