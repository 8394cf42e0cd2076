------------------------------- MODULE MCCalls -------------------------------
(***************************************************************************)
(* The state machine InterpN with concrete problems and calls, well formed *)
(* and malformed, with ordinary, not finite and far away points, and with  *)
(* the caller's output array.  Checked exhaustively with few interpolators *)
(* (MCCalls.cfg); with Record = TRUE its random behaviours are printed as  *)
(* sessions, which the executors run on the real library.                  *)
(***************************************************************************)
EXTENDS MCData, Json, IOUtils

CONSTANTS Record,      \* keep and print histories
          MaxOps,      \* operations per history
          Handles,     \* how many interpolators a caller keeps
          Few          \* a smaller catalogue of problems
VARIABLES objs, call,
          out,         \* the caller's output array (text)
          last,        \* the call that ended last: [r, ref, a]
          plan,        \* the next operation, chosen in steps
          hist
vars == <<objs, call, out, last, plan, hist>>

-----------------------------------------------------------------------------
(* Problems *)
Reg(m, lin, dims, starts, steps, v) ==
  [m |-> m, g |-> "regular", lin |-> lin, dims |-> dims, starts |-> starts, steps |-> steps, grids |-> <<>>, vals |-> v]
Rect(m, lin, grids, v) ==
  [m |-> m, g |-> "rectilinear", lin |-> lin, dims |-> <<>>, starts |-> <<>>, steps |-> <<>>, grids |-> grids, vals |-> v]
Vals(n) == [k |-> "list", v |-> [i \in 1..n |-> ((5 * i * i * i + 3 * i) % 19) - 9]]
Meths == <<[m |-> "linear", lin |-> FALSE], [m |-> "cubic", lin |-> TRUE], [m |-> "nearest", lin |-> FALSE], [m |-> "cubic", lin |-> FALSE]>>
Good ==
  <<[g |-> "regular", n |-> 1], [g |-> "rectilinear", n |-> 1], [g |-> "regular", n |-> 2],
    [g |-> "rectilinear", n |-> 2], [g |-> "regular", n |-> 3], [g |-> "rectilinear", n |-> 3]>>
GoodP(q, w) ==
  IF w.g = "regular"
  THEN LET ds == SubSeq(<<4, 5, 4>>, 1, w.n) IN
       Reg(q.m, q.lin, ds, SubSeq(<<-1, 0, 2>>, 1, w.n), SubSeq(<<"1/2", 1, 2>>, 1, w.n), Vals(CASE w.n = 1 -> 4 [] w.n = 2 -> 20 [] OTHER -> 80))
  ELSE Rect(q.m, q.lin, SubSeq(<<List(<<-1, 0, "1/4", 2, 3>>), List(<<0, 1, 3, 4>>), List(<<-2, 1, 2, "5/2">>)>>, 1, w.n),
            Vals(CASE w.n = 1 -> 5 [] w.n = 2 -> 20 [] OTHER -> 80))
BadP(q) ==
  <<Reg(q.m, q.lin, <<5>>, <<0>>, <<0>>, Vals(5)), Reg(q.m, q.lin, <<5>>, <<0>>, <<-1>>, Vals(5)),
    Reg(q.m, q.lin, <<5>>, <<0>>, <<"nan">>, Vals(5)), Reg(q.m, q.lin, <<5>>, <<0>>, <<1>>, Vals(4)),
    Reg(q.m, q.lin, <<4, 4>>, <<0>>, <<1, 1>>, Vals(16)), Reg(q.m, q.lin, <<4, 4>>, <<0, 0>>, <<1>>, Vals(16)),
    Reg(q.m, q.lin, <<1, 5>>, <<0, 0>>, <<1, 1>>, Vals(5)), Reg(q.m, q.lin, <<>>, <<>>, <<>>, Vals(1)),
    Rect(q.m, q.lin, <<List(<<0, 1, 2, 3>>)>>, Vals(5)), Rect(q.m, q.lin, <<List(<<1, 0, 2, 3>>)>>, Vals(4)),
    Rect(q.m, q.lin, <<List(<<0, 0, 2, 3>>)>>, Vals(4)), Rect(q.m, q.lin, <<List(<<0, 1, 2, 3>>), List(<<7>>)>>, Vals(4)),
    Rect(q.m, q.lin, <<>>, Vals(1)), Rect(q.m, q.lin, <<List(<<0, "nan", 2, 3>>)>>, Vals(4))>>
Flatten(ss) == LET RECURSIVE f(_) f(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o f(i + 1) IN f(1)
Ms == IF Few THEN 1..3 ELSE 1..4
Probs == TLCEval(Flatten([k \in Ms |-> (IF Few THEN [w \in 1..4 |-> GoodP(Meths[k], Good[w])] \o SubSeq(BadP(Meths[k]), 4 * k - 3, 4 * k)
                                        ELSE [w \in 1..6 |-> GoodP(Meths[k], Good[w])] \o BadP(Meths[k]))]))
(* Calls *)
Far == "1180591620717411303424"
Acts == <<
  [obs |-> <<<<"1/2", 5, -3>>>>, n |-> 3], [obs |-> <<<<0, "nan", 1>>>>, n |-> 3], [obs |-> <<<<1, Far, 0>>>>, n |-> 3],
  [obs |-> <<<<"3/4", 2, 1>>>>, n |-> 2], [obs |-> <<<<>>>>, n |-> 0], [obs |-> <<<<"1/2", 2>>, <<-1, 3>>>>, n |-> 2],
  [obs |-> <<<<0, "1/8">>, <<"inf", 1>>>>, n |-> 2], [obs |-> <<<<0, 1>>, <<1>>>>, n |-> 2], [obs |-> <<<<>>, <<>>>>, n |-> 0],
  [obs |-> <<<<"1/4">>, <<3>>, <<9>>>>, n |-> 1], [obs |-> <<<<1, 1>>, <<0, "-inf">>, <<2, 0>>>>, n |-> 2], [obs |-> <<>>, n |-> 0],
  [obs |-> <<<<-1>>>>, n |-> 1], [obs |-> <<<<2>>, <<3>>>>, n |-> 1], [obs |-> <<<<"-5/4", 3>>, <<"7/2", 9>>, <<-7, "9/4">>>>, n |-> 2]>>
CProblem(ref) == Probs[ref]
CArgs(a) == Acts[a]
Lib == INSTANCE InterpN WITH Problem <- CProblem, Args <- CArgs

ASSUME Record => PrintT("PROBLEMS " \o ToJson(Probs))

NoPlan == [o |-> "none", h |-> 0, ref |-> 0, fam |-> "", md |-> 0, a |-> 0, fit |-> 0]
NoCall == [r |-> "none", ref |-> 0, a |-> 0]
Init == /\ Lib!LibInit /\ out = <<>> /\ last = NoCall /\ plan = NoPlan /\ hist = <<>>

More == ~Record \/ Len(hist) < MaxOps
\* the operation is chosen step by step, so that random behaviours mix all kinds
Pick == /\ call.k = "idle" /\ plan.o = "none" /\ More
        /\ \E o \in {"new", "fn", "alc"} \cup (IF DOMAIN objs = {} THEN {} ELSE {"bat", "one"}) :
             \E f \in (IF Record THEN 1..(IF o = "bat" THEN 5 ELSE 2) ELSE {1}) : plan' = [plan EXCEPT !.o = o, !.fit = f]
        /\ out' = <<>> /\ last' = NoCall /\ UNCHANGED <<objs, call, hist>>
\* what the type of a fixed-dimension interpolator rules out cannot even be written
Writable(p) == NDims(p) >= 1 /\ (p.g = "regular" => Len(p.starts) = NDims(p) /\ Len(p.steps) = NDims(p))
Fams(p) == (IF plan.o = "new" /\ ~Writable(p) THEN {} ELSE {"flat"}) \cup (IF p.m = "nearest" THEN {} ELSE {"rec"})
PickRef == /\ plan.o \in {"new", "fn", "alc"} /\ plan.ref = 0
           /\ \E r \in {q \in 1..Len(Probs) : plan.fit > 1 => ProblemOk(Probs[q])} : \E f \in Fams(Probs[r]) : plan' = [plan EXCEPT !.ref = r, !.fam = f]
           /\ UNCHANGED <<objs, call, out, last, hist>>
Mds(p, f) == IF f = "rec" THEN {1, 2, 3, 8} ELSE IF Writable(p) THEN {NDims(p)} ELSE {}
Note(e) == hist' = IF Record THEN Append(hist, e) ELSE hist
DoNew == /\ plan.o = "new" /\ plan.ref # 0
         /\ \E h \in 1..Handles : \E md \in Mds(Probs[plan.ref], plan.fam) :
              LET r == Lib!NewResult(plan.ref, plan.fam, md) e == [plan EXCEPT !.h = h, !.md = md] IN
              /\ Lib!New(h, plan.ref, plan.fam, md, r) /\ Note(e)
         /\ plan' = NoPlan /\ UNCHANGED <<out, last>>
Pre == "pre"
Fresh(a) == out' = [j \in 1..CArgs(a).n |-> Pre]
\* calls on an interpolator: the type fixes the number of axes of flat ones
Fits(h, a) == objs[h].fam = "rec" \/ Len(CArgs(a).obs) = NDims(Probs[objs[h].ref])
Suits(a, r) == plan.fit > 1 => BatchOk(NDims(Probs[r]), CArgs(a).obs, CArgs(a).n)
DoEval == /\ plan.o \in {"bat", "one"}
          /\ \E h \in DOMAIN objs : \E a \in {b \in 1..Len(Acts) : plan.o = "one" \/ Suits(b, objs[h].ref)} :
               /\ IF plan.o = "bat" THEN Fits(h, a)
                  ELSE CArgs(a).n = 1 /\ Len(CArgs(a).obs) = NDims(Probs[objs[h].ref])
               /\ Lib!BeginEval(h, a) /\ Fresh(a) /\ Note([plan EXCEPT !.h = h, !.a = a, !.ref = objs[h].ref])
          /\ plan' = NoPlan /\ UNCHANGED last
DoCall == /\ plan.o \in {"fn", "alc"} /\ plan.ref # 0
          /\ \E a \in {b \in 1..Len(Acts) : Suits(b, plan.ref)} : /\ Lib!BeginCall(plan.ref, a) /\ Fresh(a) /\ Note([plan EXCEPT !.a = a])
          /\ plan' = NoPlan /\ UNCHANGED last
Text(p, x) == IF Finite(x) /\ ~MayFail(p, x) THEN RShow(Value(p, x)) ELSE "any"
DoPoint == /\ Lib!Advance
           /\ out' = [out EXCEPT ![call.done + 1] = Text(Lib!CurProblem, Lib!CurPoint)]
           /\ UNCHANGED <<last, plan, hist>>
End(r) == last' = [r |-> r, ref |-> call.ref, a |-> call.args] /\ UNCHANGED <<out, plan, hist>>
DoReturn == Lib!Return /\ End("ok")
DoFail == Lib!Fail /\ End("err")

\* A finished history is printed as a session.
Event(e) ==
  LET a == IF e.a = 0 THEN [obs |-> <<>>, n |-> 0] ELSE CArgs(e.a)
  IN  CASE e.o = "new" -> [o |-> "new", h |-> e.h, p |-> e.ref, a |-> e.fam, md |-> e.md]
        [] e.o = "bat" -> [o |-> "bat", h |-> e.h, p |-> e.ref, obs |-> a.obs, n |-> a.n, pre |-> "-1234567"]
        [] e.o = "one" -> [o |-> "one", h |-> e.h, p |-> e.ref, x |-> [d \in 1..Len(a.obs) |-> a.obs[d][1]]]
        [] e.o = "fn"  -> [o |-> "fn", p |-> e.ref, a |-> e.fam, obs |-> a.obs, n |-> a.n, pre |-> "-1234567"]
        [] e.o = "alc" -> [o |-> "alc", p |-> e.ref, a |-> e.fam, obs |-> a.obs]
Emit == /\ Record /\ call.k = "idle" /\ plan.o = "none" /\ Len(hist) = MaxOps
        /\ PrintT("SESSION " \o ToJson([i \in 1..Len(hist) |-> Event(hist[i])]))
        /\ plan' = [plan EXCEPT !.o = "end"] /\ UNCHANGED <<objs, call, out, last, hist>>

Work == DoPoint \/ DoReturn \/ DoFail
Next == Pick \/ PickRef \/ DoNew \/ DoEval \/ DoCall \/ Work \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

-----------------------------------------------------------------------------
Right(ref, a, j) == out[j] = Text(Probs[ref], Lib!PointOf(a, j))
\* C14: only well-formed problems become interpolators
ObjectsOk == \A h \in DOMAIN objs : NewOk(Probs[objs[h].ref], objs[h].fam, objs[h].md)
\* C09, C14, C15: the output holds the results of the leading points and is untouched elsewhere
OutRight == call.k = "run" => \A j \in 1..CArgs(call.args).n :
                                 IF j <= call.done THEN Right(call.ref, call.args, j) ELSE out[j] = Pre
\* C09: a finished call's output depends only on the problem and the points
Answers == (call.k = "idle" /\ last.r = "ok") =>
             /\ CallOk(Probs[last.ref], CArgs(last.a).obs, CArgs(last.a).n) \/ BatchOk(NDims(Probs[last.ref]), CArgs(last.a).obs, CArgs(last.a).n)
             /\ Len(out) = CArgs(last.a).n /\ \A j \in 1..Len(out) : Right(last.ref, last.a, j)
\* C14, C15: a refused call was malformed or had a point that may fail, and left
\* everything from that point on untouched
Refusals == (call.k = "idle" /\ last.r = "err") =>
              \/ /\ ~(ProblemOk(Probs[last.ref]) /\ BatchOk(NDims(Probs[last.ref]), CArgs(last.a).obs, CArgs(last.a).n))
                 /\ \A j \in 1..Len(out) : out[j] = Pre
              \/ \E j \in 1..Len(out) : /\ MayFail(Probs[last.ref], Lib!PointOf(last.a, j))
                                        /\ \A q \in 1..(j - 1) : Right(last.ref, last.a, q)
                                        /\ \A q \in (j + 1)..Len(out) : out[q] = Pre
\* calls never change interpolators; constructions that fail do not either
ObjectsKept == [][(objs' # objs) => (plan.o = "new" /\ ProblemOk(Probs[plan.ref]) /\ call' = call)]_vars
\* every call ends
Ends == (call.k = "run") ~> (call.k = "idle")
=============================================================================
