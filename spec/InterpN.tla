------------------------------ MODULE InterpN ------------------------------
(***************************************************************************)
(* The library as a state machine.  A caller builds interpolators and      *)
(* evaluates batches of points, through an interpolator or through a       *)
(* convenience function.  A batch is worked off point by point: the first  *)
(* `done` elements of the output hold the values of the first `done`       *)
(* points, the others still hold what the caller put there.                *)
(*                                                                         *)
(* Problems and call arguments are immutable, so the state only refers to  *)
(* them: Problem(ref) and Args(a) say what a reference stands for.         *)
(* Args(a) has fields obs (one sequence per axis) and n (output length).   *)
(***************************************************************************)
EXTENDS Rules

CONSTANTS Problem(_), Args(_)
VARIABLES objs,     \* handle -> [ref, fam, md]: interpolators built so far
          call      \* the call in progress
lib == <<objs, call>>

Idle == [k |-> "idle"]
LibInit == objs = <<>> /\ call = Idle

\* Building an interpolator succeeds exactly for well-formed problems; a
\* failed attempt leaves everything as it was.
NewResult(ref, fam, md) == IF NewOk(Problem(ref), fam, md) THEN "ok" ELSE "err"
Bind(h, ref, fam, md) == [g \in DOMAIN objs \cup {h} |->
                            IF g = h THEN [ref |-> ref, fam |-> fam, md |-> md] ELSE objs[g]]
New(h, ref, fam, md, r) ==
  /\ call = Idle /\ r = NewResult(ref, fam, md)
  /\ objs' = IF r = "ok" THEN Bind(h, ref, fam, md) ELSE objs
  /\ UNCHANGED call

Start(ref, a, ok) == /\ call = Idle
                     /\ call' = [k |-> "run", ref |-> ref, args |-> a, ok |-> ok, done |-> 0]
                     /\ UNCHANGED objs
\* interp / interp_one on an interpolator
BeginEval(h, a) == /\ h \in DOMAIN objs
                   /\ LET ref == objs[h].ref
                      IN  Start(ref, a, BatchOk(NDims(Problem(ref)), Args(a).obs, Args(a).n))
\* convenience function
BeginCall(ref, a) == Start(ref, a, CallOk(Problem(ref), Args(a).obs, Args(a).n))

PointOf(a, j) == [d \in 1..Len(Args(a).obs) |-> Args(a).obs[d][j]]
CurPoint == PointOf(call.args, call.done + 1)
CurProblem == Problem(call.ref)

MorePoints == call.k = "run" /\ call.ok /\ call.done < Args(call.args).n
\* One more point has been evaluated.  Point(y): its result is y.
Advance == /\ MorePoints
           /\ call' = [call EXCEPT !.done = @ + 1] /\ UNCHANGED objs
Point(y) == Advance /\ (Finite(CurPoint) => REq(y, Value(CurProblem, CurPoint)))

Return == /\ call.k = "run" /\ call.ok /\ call.done = Args(call.args).n
          /\ call' = Idle /\ UNCHANGED objs
\* A call is refused at once when it is malformed, and given up at a point that
\* may fail; the points before it have been evaluated.
MayRefuse == \/ ~call.ok /\ call.done = 0
             \/ call.ok /\ \E j \in {call.done, call.done + 1} \cap 1..Args(call.args).n : MayFail(CurProblem, PointOf(call.args, j))
Fail == call.k = "run" /\ MayRefuse /\ call' = Idle /\ UNCHANGED objs
=============================================================================
