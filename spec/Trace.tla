------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance: sessions recorded from the real library are replayed       *)
(* against the state machine InterpN (and the one-dimensional, bounds and  *)
(* helper specifications).  Every session starts from its own initial      *)
(* state and is worked off step by step; a step the specification does not *)
(* allow leads to a state with why # "", which violates Conforms.          *)
(*                                                                         *)
(* A session records: num ("rat": the library ran on exact rationals,      *)
(* "f64", "f32"), e (bits of precision, 0 = exact), chk (which obligations *)
(* the results are held to), p (problems), ev (operations with their       *)
(* results), rel (relations between results).                              *)
(***************************************************************************)
EXTENDS Bounds, OneD, Helpers, Judge, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES objs, call, sid, pc, i, why
vars == <<objs, call, sid, pc, i, why>>

S == Sessions[sid]
TraceProblem(ref) == Sessions[ref[1]].p[ref[2]]
Pts(ev) == IF ev.o = "one" THEN [d \in 1..Len(ev.x) |-> <<ev.x[d]>>] ELSE ev.obs
OutLen(ev) == CASE ev.o = "one" -> 1
                [] ev.o = "alc" -> IF Len(ev.obs) = 0 THEN 0 ELSE Len(ev.obs[1])
                [] OTHER -> ev.n
TraceArgs(a) == LET ev == Sessions[a[1]].ev[a[2]] IN [obs |-> Pts(ev), n |-> OutLen(ev)]

Lib == INSTANCE InterpN WITH Problem <- TraceProblem, Args <- TraceArgs

Ev == S.ev[i]
Ref(k) == <<sid, k>>
Has(s, c) == \E k \in 1..Len(s.chk) : s.chk[k] = c

Init == /\ sid \in 1..Len(Sessions) /\ pc = "ev" /\ i = 1 /\ why = ""
        /\ Lib!LibInit

-----------------------------------------------------------------------------
(* Recorded results *)

\* Result t of point j of event ev (par: one output per thread t)
Threads(ev) == IF ev.o = "par" THEN 1..Len(ev.outs) ELSE {1}
Result(ev, j, t) == CASE ev.o = "one" -> ev.y
                      [] ev.o = "par" -> ev.outs[t][j]
                      [] OTHER -> ev.out[j]
\* The caller's content of element j of the output was not overwritten
Untouched(ev, j) == IF ev.o \in {"bat", "fn"} THEN SameNum(ev.out[j], ev.pre) ELSE TRUE

-----------------------------------------------------------------------------
(* Steps.  Reject(w) is taken when the specification does not allow what   *)
(* was recorded.                                                           *)

Reject(w) == /\ pc' = "bad" /\ why' = w
             /\ UNCHANGED <<objs, call, sid, i>>
             /\ PrintT(<<"REJECT", S.sid, pc, i, w>>)
Stay == UNCHANGED <<sid, pc, i, why>>
Next1 == /\ sid' = sid /\ why' = why
         /\ IF pc = "ev" /\ i < Len(S.ev) THEN pc' = pc /\ i' = i + 1
            ELSE IF pc = "ev" /\ Len(S.rel) > 0 THEN pc' = "rel" /\ i' = 1
            ELSE IF pc = "rel" /\ i < Len(S.rel) THEN pc' = pc /\ i' = i + 1
            ELSE pc' = "end" /\ i' = 0
Allocs(n) == Has(S, "noalloc") => Ev.al <= n
Skipped == Ev.r = "skip"

NewStep ==
  /\ Ev.o = "new"
  /\ LET r == Lib!NewResult(Ref(Ev.p), Ev.a, Ev.md) IN
     CASE Skipped       -> UNCHANGED <<objs, call>> /\ Next1
       [] ~Skipped /\ Ev.r # r -> Reject("construction " \o Ev.r \o ", specified " \o r)
       [] ~Skipped /\ ~Allocs(0) -> Reject("construction allocates")
       [] OTHER -> Lib!New(Ev.h, Ref(Ev.p), Ev.a, Ev.md, Ev.r) /\ Next1

\* A call is consumed in several steps: begin, its points, return or failure.
CallKinds == {"one", "bat", "par", "fn", "alc"}
Obj == Ev.o \in {"one", "bat", "par"}
Begin ==
  /\ Ev.o \in CallKinds /\ call.k = "idle"
  /\ CASE Skipped -> UNCHANGED <<objs, call>> /\ Next1
       [] ~Skipped /\ Ev.r \notin {"ok", "err"} -> Reject("call ended with " \o Ev.r)
       [] ~Skipped /\ Ev.r \in {"ok", "err"} /\ Obj /\ Ev.h \notin DOMAIN objs -> Reject("no such interpolator")
       [] ~Skipped /\ Ev.r \in {"ok", "err"} /\ (~Obj \/ Ev.h \in DOMAIN objs) ->
            /\ IF Obj THEN Lib!BeginEval(Ev.h, <<sid, i>>) ELSE Lib!BeginCall(Ref(Ev.p), <<sid, i>>)
            /\ Stay
\* A failed call may have written leading points; what is not the caller's
\* own content any more has to be a result.
Shown == Ev.o \in {"bat", "fn"}
\* (the output of the others is not seen when they fail)
AtRest == /\ Ev.r = "err"
          /\ Shown \/ ~call.ok \/ call.done = OutLen(Ev) \/ Lib!MayRefuse
          /\ \A j \in (call.done + 1)..OutLen(Ev) : Untouched(Ev, j)
AllocLimit == IF Ev.o = "alc" THEN 1 ELSE 0
Run ==
  /\ Ev.o \in CallKinds /\ call.k = "run"
  /\ CASE AtRest ->
            IF ~Lib!MayRefuse THEN Reject("error for a well-formed call")
            ELSE IF ~Allocs(AllocLimit) THEN Reject("allocates")
            ELSE Lib!Fail /\ Next1
       [] ~AtRest /\ ~call.ok -> Reject("malformed call: " \o Ev.r)
       [] ~AtRest /\ call.ok /\ call.done < OutLen(Ev) ->
            IF ~Shown /\ Ev.r = "err" THEN Lib!Advance /\ Stay
            ELSE IF \A t \in Threads(Ev) : PointOk(S, Lib!CurProblem, Lib!CurPoint, Result(Ev, call.done + 1, t))
            THEN Lib!Advance /\ Stay
            ELSE Reject("point " \o ToString(call.done + 1))
       [] ~AtRest /\ call.ok /\ call.done = OutLen(Ev) ->
            CASE Ev.r # "ok" -> Reject("error after all points")
              [] Ev.o \in {"bat", "fn", "alc"} /\ Len(Ev.out) # OutLen(Ev) -> Reject("output length")
              [] ~Allocs(AllocLimit) -> Reject("allocates")
              [] OTHER -> Lib!Return /\ Next1

BoundsStep ==
  /\ Ev.o = "cb" /\ UNCHANGED <<objs, call>>
  /\ LET p == S.p[Ev.p] ok == BoundsOk(p, Ev.obs, Ev.n)
         bad == {d \in 1..Ev.n : ~FlagOk(p, d, Ev.obs[d], RParse(Ev.atol), BoundsSlack(S.e, p, d, RParse(Ev.atol)), Ev.out[d])}
     IN  CASE Skipped -> Next1
           [] ~Skipped /\ Ev.r \notin {"ok", "err"} -> Reject("bounds check ended with " \o Ev.r)
           [] Ev.r = "ok" /\ ok = "no" -> Reject("bounds check accepts malformed input")
           [] Ev.r = "err" /\ ok = "yes" -> Reject("bounds check refuses well-formed input")
           [] Ev.r \in {"ok", "err"} /\ ~Allocs(0) -> Reject("allocates")
           [] Ev.r = "ok" /\ ok = "yes" /\ Has(S, "bounds") /\ bad # {} -> Reject("flags of axes " \o ToString(bad))
           [] OTHER -> Next1

-----------------------------------------------------------------------------
(* One-dimensional interpolators *)

GridStep ==
  /\ Ev.o = "g1" /\ UNCHANGED call
  /\ LET r == IF Grid1Ok(S.p[Ev.p]) THEN "ok" ELSE "err" IN
     IF Skipped THEN UNCHANGED objs /\ Next1
     ELSE IF Ev.r # r THEN Reject("grid " \o Ev.r \o ", specified " \o r)
     ELSE IF ~Allocs(0) THEN Reject("allocates")
     ELSE /\ objs' = IF r = "ok" THEN Lib!Bind(Ev.h, Ref(Ev.p), "1d", 1) ELSE objs
          /\ Next1
P1 == TraceProblem(objs[Ev.h].ref)
Close1(p, x, y, v) == IF S.e = 0 THEN REq(RParse(y), v) ELSE RLe(RAbs(RSub(RParse(y), v)), Tol1(S.e, p, x))
Value1Ok(p, x, y) ==
  /\ IsNum(y)
  /\ CASE Ev.k = "linear" -> Close1(p, x, y, Linear1(p, x))
       [] Ev.k = "hold"   -> Close1(p, x, y, HoldLast1(p, x))
       [] OTHER -> \E k \in HoldNodes(Ev.k, Axis1(p), x, Slack1(S.e, p, x)) : REq(RParse(y), Y1(p, k))
\* A coordinate so far out (or not a number) that a call may give up there.
Far1(j) == IF ~IsNum(Ev.xs[j]) THEN TRUE ELSE RLe(FarCells, RAbs(Offset(Axis1(P1), RParse(Ev.xs[j]))))
Point1Ok(j) == IF ~IsNum(Ev.xs[j]) THEN TRUE
               ELSE Value1Ok(P1, RParse(Ev.xs[j]), Ev.out[j])
InterpStep ==
  /\ Ev.o = "i1" /\ UNCHANGED <<objs, call>>
  /\ LET lenOk == Ev.f # "eval" \/ Len(Ev.xs) = Ev.n
         far == {j \in 1..Len(Ev.xs) : Far1(j)}
         bad == {j \in (1..Len(Ev.xs)) \ far : ~Point1Ok(j)}
         same(j) == SameNum(Ev.out[j], Ev.pre)
         \* a refused batch holds results up to some point and the caller's content from there
         lead(k) == /\ \A j \in 1..(k - 1) : j \in far \/ Point1Ok(j)
                    /\ \A j \in (k + 1)..Ev.n : same(j)
         left == CASE Ev.f = "alc" -> TRUE
                   [] lenOk -> \E k \in far : lead(k)
                   [] OTHER -> \E k \in 0..IMin(Ev.n, Len(Ev.xs)) : lead(k) /\ (k > 0 => same(k))
     IN  CASE Skipped -> Next1
           [] ~Skipped /\ Ev.r \notin {"ok", "err"} -> Reject("evaluation ended with " \o Ev.r)
           [] Ev.r = "ok" /\ ~lenOk -> Reject("accepts different lengths")
           [] Ev.r = "err" /\ lenOk /\ far = {} -> Reject("error for a well-formed call")
           [] Ev.r \in {"ok", "err"} /\ ~Allocs(IF Ev.f = "alc" THEN 1 ELSE 0) -> Reject("allocates")
           [] Ev.r = "ok" /\ lenOk /\ Has(S, "one") /\ bad # {} -> Reject("points " \o ToString(bad))
           [] Ev.r = "err" /\ Has(S, "one") /\ ~left -> Reject("a refused call leaves other values")
           [] OTHER -> Next1
LookupStep ==
  /\ Ev.o = "at" /\ UNCHANGED <<objs, call>>
  /\ CASE Skipped -> Next1
       [] ~Skipped /\ ~IsNum(Ev.x) -> IF Ev.r \in {"ok", "err"} THEN Next1 ELSE Reject("lookup ended with " \o Ev.r)
       [] ~Skipped /\ IsNum(Ev.x) ->
          LET ax == Axis1(P1) x == RParse(Ev.x) sl == Slack1(S.e, P1, x)
              tol == IF S.e = 0 THEN Zero
                     ELSE RMul(RPow2(3 - S.e), RAdd(RAbs(First(ax)), RAbs(Last(ax))))
              near(a, v) == RLe(RAbs(RSub(RParse(a), v)), tol)
              fits == /\ Ev.i \in LookupCells(ax, x, sl)
                      /\ Ev.e \in LookupFlags(ax, x, sl) /\ Ev.e2 \in LookupFlags(ax, x, sl)
                      /\ near(Ev.s[1], Coord(ax, Ev.i)) /\ near(Ev.s[3], Coord(ax, Ev.i + 1))
                      /\ REq(RParse(Ev.s[2]), Y1(P1, Ev.i)) /\ REq(RParse(Ev.s[4]), Y1(P1, Ev.i + 1))
          IN  IF Ev.r = "err" /\ RLe(FarCells, RAbs(Offset(ax, x))) THEN Next1
              ELSE IF Ev.r # "ok" THEN Reject("lookup ended with " \o Ev.r)
              ELSE IF Has(S, "noalloc") /\ Ev.al > 0 THEN Reject("allocates")
              ELSE IF Has(S, "one") /\ ~fits THEN Reject("lookup") ELSE Next1

HelperStep ==
  /\ Ev.o \in {"linspace", "mesh"} /\ UNCHANGED <<objs, call>>
  /\ IF Skipped THEN Next1
     ELSE IF Ev.r # "ok" THEN Reject("helper ended with " \o Ev.r)
     ELSE IF Ev.o = "linspace"
          THEN IF LinspaceOk(S.e, RParse(Ev.x), RParse(Ev.y), Ev.n, Ev.out) THEN Next1 ELSE Reject("linspace")
          ELSE IF MeshOk(Ev.grids, Ev.out) THEN Next1 ELSE Reject("mesh")

CrashStep == Ev.o \in {"crash", "hang"} /\ Reject("the process died or hung in this session")

-----------------------------------------------------------------------------
(* Relations between recorded results *)

Rel == S.rel[i]
EvP(k) == S.p[S.ev[k].p]                          \* problem of event k
X(k, j) == LET o == Pts(S.ev[k]) IN [d \in 1..Len(o) |-> o[d][j]]
Usable(k) == S.ev[k].r = "ok"
RelTol(k, j) == IF S.e = 0 THEN Zero ELSE RMul(RInt(4), Tolerance(S.e, EvP(k), X(k, j)))
SameY(y1, y2, tol) == IF IsNum(y1) /\ IsNum(y2) THEN RLe(RAbs(RSub(RParse(y1), RParse(y2))), tol)
                      ELSE SameNum(y1, y2)
SameResults(k1, j1, k2, j2) ==
  LET tol == RMax(RelTol(k1, j1), RelTol(k2, j2))
  IN  \A t1 \in Threads(S.ev[k1]), t2 \in Threads(S.ev[k2]) :
        SameY(Result(S.ev[k1], j1, t1), Result(S.ev[k2], j2, t2), tol)
\* In floating point a rounded tie of the nearest methods may go either way.
Ambiguous(k, j) == /\ S.e # 0 /\ EvP(k).m = "nearest"
                   /\ \E d \in 1..NDims(EvP(k)) :
                        LET ns == NearNodes(S.e, Axis(EvP(k), d), RParse(X(k, j)[d]))
                        IN  \E u, v \in ns : u # v
Comparable(k, j) == Judged(S, EvP(k), X(k, j)) /\ ~Ambiguous(k, j)

\* Rel.on: <<k1, j1, k2, j2>> (event, point) pairs; problems Rel.p1, Rel.p2.
OfProblems(q) == S.ev[q[1]].p = Rel.p1 /\ S.ev[q[3]].p = Rel.p2
Pairs(points(_, _), exempt(_, _)) ==
  \A k \in 1..Len(Rel.on) :
    LET q == Rel.on[k] x1 == X(q[1], q[2]) x2 == X(q[3], q[4]) IN
    \/ ~Usable(q[1]) \/ ~Usable(q[3])
    \/ ~OfProblems(q) /\ Assert(FALSE, <<"bad relation", S.sid, i>>)
    \/ /\ OfProblems(q)
       /\ \/ ~points(x1, x2) /\ Assert(FALSE, <<"bad relation points", S.sid, i, q>>)
          \/ exempt(x1, x2)
          \/ S.e # 0 /\ (~Comparable(q[1], q[2]) \/ ~Comparable(q[3], q[4]))
          \/ SameResults(q[1], q[2], q[3], q[4])
Given(c) == Assert(c, <<"relation does not apply", S.sid, i>>)
Never(x, y) == FALSE

RelHolds ==
  CASE Rel.k = "same" -> LET P == S.p[Rel.p1] Q == S.p[Rel.p2] IN
         Given(SameProblem(P, Q)) /\ Pairs(SamePoint, Never)
    [] Rel.k = "perm" -> LET P == S.p[Rel.p1] Q == S.p[Rel.p2] pt(x, y) == PermutedPoint(x, y, Rel.pi) IN
         Given(Permuted(P, Q, Rel.pi)) /\ Pairs(pt, Never)
    [] Rel.k = "slice" -> LET P == S.p[Rel.p1] Q == S.p[Rel.p2] pt(x, y) == SlicedPoint(P, x, y, Rel.a, Rel.n) IN
         Given(Sliced(P, Q, Rel.a, Rel.n)) /\ Pairs(pt, Never)
    [] Rel.k = "extrude" -> LET P == S.p[Rel.p1] Q == S.p[Rel.p2] pt(x, y) == SamePoint(Without(x, Rel.a), y) IN
         Given(Extruded(P, Q, Rel.a)) /\ Pairs(pt, Never)
    [] Rel.k = "affine" -> LET P == S.p[Rel.p1] Q == S.p[Rel.p2]
                               pt(x, y) == AffinePoint(x, y, Rel.sc, Rel.sh)
                               ex(x, y) == TieOnMirrored(P, x, Rel.sc) IN
         Given(Affine(P, Q, Rel.sc, Rel.sh)) /\ Pairs(pt, ex)
    [] Rel.k = "local" -> LET P == S.p[Rel.p1] Q == S.p[Rel.p2]
                              pt(x, y) == SamePoint(x, y) /\ LocallySame(P, Q, x) IN
         Pairs(pt, Never)
    [] Rel.k = "comb" -> \* events e1, e2, e3 evaluate the same points
         LET al == RParse(Rel.al) be == RParse(Rel.be)
             f(k, j) == Result(S.ev[k], j, 1)
             tol(j) == RMul(RAdd(One, RAdd(RAbs(al), RAbs(be))),
                            RMax(RelTol(Rel.e1, j), RMax(RelTol(Rel.e2, j), RelTol(Rel.e3, j)))) IN
         /\ Given(Combined(EvP(Rel.e1), EvP(Rel.e2), EvP(Rel.e3), al, be))
         /\ \/ ~Usable(Rel.e1) \/ ~Usable(Rel.e2) \/ ~Usable(Rel.e3)
            \/ \A j \in 1..Rel.n :
                 /\ Given(SamePoint(X(Rel.e1, j), X(Rel.e2, j)) /\ SamePoint(X(Rel.e1, j), X(Rel.e3, j)))
                 /\ \/ \E q \in {Rel.e1, Rel.e2, Rel.e3} : ~Judged(S, EvP(q), X(q, j))
                    \/ /\ IsNum(f(Rel.e1, j)) /\ IsNum(f(Rel.e2, j)) /\ IsNum(f(Rel.e3, j))
                       /\ RLe(RAbs(RSub(RParse(f(Rel.e3, j)),
                                        RAdd(RMul(al, RParse(f(Rel.e1, j))), RMul(be, RParse(f(Rel.e2, j)))))), tol(j))
    [] Rel.k = "poly" -> \* the results of these events lie on the sampled polynomial
         LET P == S.p[Rel.p1] IN
         /\ Given(Samples(P, Rel.poly))
         /\ \A k \in 1..Len(Rel.es) :
              LET n == Rel.es[k] ev == S.ev[n] IN
              \/ ~Usable(n)
              \/ /\ Given(ev.p = Rel.p1)
                 /\ \A j \in 1..OutLen(ev) :
                      \/ ~Reproduces(P, Rel.poly, X(n, j))
                      \/ ~Judged(S, P, X(n, j))
                      \/ \A t \in Threads(ev) : Near(S, P, X(n, j), Result(ev, j, t), PolySum_(Rel.poly, X(n, j), 1))
    [] Rel.k = "cont" -> \* event e evaluates nine points across a cell face of axis a
         LET P == EvP(Rel.e) xs == [j \in 1..9 |-> X(Rel.e, j)] h == RParse(Rel.h) IN
         /\ Given(P.m # "nearest" /\ Straddles(P, xs, Rel.a, h))
         /\ \/ ~Usable(Rel.e)
            \/ \E j \in 1..9 : ~Judged(S, P, xs[j])
            \/ \A y \in {S.ev[Rel.e].out} :
                  Continuous(P.m, y, IF S.e = 0 THEN Zero
                                     ELSE RMax(Tolerance(S.e, P, xs[1]), Tolerance(S.e, P, xs[9])))
RelStep == /\ UNCHANGED <<objs, call>>
           /\ IF RelHolds THEN Next1 ELSE Reject("relation " \o Rel.k)

-----------------------------------------------------------------------------
Next == \/ /\ pc = "ev"
           /\ \/ NewStep \/ Begin \/ Run \/ BoundsStep \/ GridStep \/ InterpStep \/ LookupStep
              \/ HelperStep \/ CrashStep
        \/ pc = "rel" /\ RelStep
        \/ pc \in {"end", "bad"} /\ UNCHANGED vars   \* (so that a session stuck half-way is a deadlock)
Spec == Init /\ [][Next]_vars
Conforms == pc # "bad"
=============================================================================
