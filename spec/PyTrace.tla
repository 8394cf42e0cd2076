------------------------------ MODULE PyTrace ------------------------------
(***************************************************************************)
(* Conformance of the Python package: recorded sessions are replayed       *)
(* against PyLib.  After every operation the session records which buffers *)
(* changed and to what (chg); everything not recorded there is unchanged.  *)
(***************************************************************************)
EXTENDS PyLib, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, pc, i, why
vars == <<bufs, arrs, pobjs, docs, sid, pc, i, why>>
S == Sessions[sid]
Ev == S.ev[i]
Init == sid \in 1..Len(Sessions) /\ pc = "ev" /\ i = 1 /\ why = "" /\ PyInit

Reject(w) == /\ pc' = "bad" /\ why' = w
             /\ UNCHANGED <<py, sid, i>>
             /\ PrintT(<<"REJECT", S.sid, pc, i, w>>)
Next1 == /\ sid' = sid /\ why' = why
         /\ IF pc = "ev" /\ i < Len(S.ev) THEN pc' = pc /\ i' = i + 1
            ELSE IF pc = "ev" /\ Len(S.rel) > 0 THEN pc' = "rel" /\ i' = 1
            ELSE IF pc = "rel" /\ i < Len(S.rel) THEN pc' = pc /\ i' = i + 1
            ELSE pc' = "end" /\ i' = 0

\* Memory after the operation
Changed == {Ev.chg[k][1] : k \in Positions(Ev.chg)}
After(b) == IF b \in Changed THEN Ev.chg[CHOOSE k \in Positions(Ev.chg) : Ev.chg[k][1] = b][2] ELSE bufs[b].v
NewBufs == [b \in DOMAIN bufs |-> [dt |-> bufs[b].dt, v |-> After(b)]]
\* Nothing but the elements of array a (0: nothing at all) has changed.
OnlyChanged(a) ==
  \A b \in Changed : /\ a # 0 /\ b = arrs[a].b
                     /\ \A k \in Positions(bufs[b].v) : k \in Cells(a) \/ SameNum(After(b)[k], bufs[b].v[k])
Now(a) == ContentIn(NewBufs, a)
Commit(what) == bufs' = NewBufs /\ UNCHANGED <<arrs, pobjs, docs>> /\ Next1
\* A result that is returned rather than written belongs to the caller from now on
CommitResult ==
  IF Ev.out # 0 \/ Ev.ret = 0 THEN Commit("")
  ELSE /\ bufs' = Put(NewBufs, Ev.ret, [dt |-> Ev.res.dt, v |-> Ev.res.v])
       /\ arrs' = Put(arrs, Ev.ret, [b |-> Ev.ret, off |-> 0, shape |-> Ev.res.shape, strides |-> Packed(Ev.res.shape), ro |-> FALSE])
       /\ UNCHANGED <<pobjs, docs>> /\ Next1
Exception == Ev.r = "exc"
Answer == Ev.r \in {"ok", "exc", "panic"}

-----------------------------------------------------------------------------
(* The caller's own operations *)

BufStep == /\ Ev.o = "buf" /\ bufs' = Put(bufs, Ev.b, [dt |-> Ev.dt, v |-> Ev.v])
           /\ UNCHANGED <<arrs, pobjs, docs>> /\ Next1
ArrStep == /\ Ev.o = "arr"
           /\ arrs' = Put(arrs, Ev.a, [b |-> Ev.b, off |-> Ev.off, shape |-> Ev.shape, strides |-> Ev.strides, ro |-> Ev.ro])
           /\ UNCHANGED <<bufs, pobjs, docs>> /\ Next1
PokeStep == /\ Ev.o = "poke"
            /\ bufs' = IF Ev.b \in DOMAIN bufs THEN [bufs EXCEPT ![Ev.b].v[Ev.i + 1] = Ev.v] ELSE bufs
            /\ UNCHANGED <<arrs, pobjs, docs>> /\ Next1
DocStep == /\ Ev.o = "doc" /\ docs' = Put(docs, Ev.d, Ev.doc)
           /\ UNCHANGED <<bufs, arrs, pobjs>> /\ Next1

-----------------------------------------------------------------------------
(* Raw functions *)

FlagsBad(P, obs, atol, flags) ==
  {d \in Positions(obs) : ~FlagOk(P, d, obs[d], RParse(atol), BitsOf(P, d, RParse(atol)), flags[d] = 1)}

RawStep ==
  /\ Ev.o = "raw"
  /\ LET P == RawProblem(Ev)  obs == Contents(Ev.obs)  n == Size(Ev.out)
         typed == Typed(RawInputs(Ev), Ev.dt) /\ InputOk(Ev.out, OutType(Ev)) /\ CountsOk(Ev)
         free == OutFree(RawInputs(Ev), Ev.out)
         good == IF Ev.f = "cb" THEN BoundsOk(P, obs, n) ELSE IF CallOk(P, obs, n) THEN "yes" ELSE "no"
     IN
     CASE ~Answer -> Reject("call ended with " \o Ev.r)
       [] Ev.r = "panic" -> IF free \/ Changed # {} THEN Reject("panic") ELSE Commit("")
       [] Ev.r = "ok" ->
            IF ~typed THEN Reject("accepts arguments of the wrong kind")
            ELSE IF ~free THEN Reject("accepts a read-only or shared output")
            ELSE IF good = "no" THEN Reject("accepts malformed arguments")
            ELSE IF ~OnlyChanged(Ev.out) THEN Reject("changes something else than the output")
            ELSE IF Ev.f = "cb"
                 THEN IF good = "yes" /\ FlagsBad(P, obs, Ev.atol, Now(Ev.out)) # {} THEN Reject("flags") ELSE Commit("")
            ELSE IF ~ResultsOk(P, obs, Now(Ev.out)) THEN Reject("results")
            ELSE Commit("")
       [] Ev.r = "exc" ->
            IF typed /\ free /\ good = "yes"
            THEN IF Ev.f # "cb" /\ OnlyChanged(Ev.out) /\ GaveUp(P, obs, Content(Ev.out), Now(Ev.out)) THEN Commit("")
                 ELSE Reject("exception for a well-formed call")
            ELSE IF Changed # {} THEN Reject("changes memory although it fails") ELSE Commit("")

-----------------------------------------------------------------------------
(* The helper interpn() *)

\* Whether the bounds are violated: "yes", "no", "any" (within rounding)
Violated(P, obs) ==
  LET at == RParse(Ev.atol) IN
  IF \E d \in Positions(obs) : MustFlag(P, d, obs[d], at, BitsOf(P, d, at)) THEN "yes"
  ELSE IF \A d \in Positions(obs) : MustClear(P, d, obs[d], at, BitsOf(P, d, at)) THEN "no" ELSE "any"
HelpStep ==
  /\ Ev.o = "help"
  /\ LET dt == DT(Ev.vals)
         obs == Contents(Ev.obs)
         n == IF Ev.out # 0 THEN Size(Ev.out) ELSE IF Len(Ev.obs) > 0 THEN Size(Ev.obs[1]) ELSE 0
         typed == /\ dt \in {"f64", "f32"} /\ Ev.method \in {"linear", "cubic", "nearest"} /\ Len(Ev.obs) > 0
                  /\ \A k \in Positions(Ev.grids) : Size(Ev.grids[k]) >= 2
                  /\ \A k \in Positions(Ev.obs) : DT(Ev.obs[k]) = dt
                  /\ Ev.out # 0 => DT(Ev.out) = dt
         \* even axes are turned into starts and steps of the type of the values,
         \* so axes of another type may be accepted or refused
         mixed == \E k \in Positions(Ev.grids) : DT(Ev.grids[k]) # dt
         P == HelperProblem(Ev, dt)
         good == typed /\ CallOk(P, obs, n)
         viol == IF good /\ Ev.check THEN Violated(P, obs) ELSE "no"
         res == Ev.res
     IN
     CASE ~Answer -> Reject("call ended with " \o Ev.r)
       [] Ev.r = "panic" -> IF Ev.out = 0 \/ OutFree(Ev.grids \o <<Ev.vals>> \o Ev.obs, Ev.out) \/ Changed # {} THEN Reject("panic") ELSE Commit("")
       [] Ev.r = "exc" ->
            IF good /\ ~mixed /\ viol = "no" THEN Reject("exception for a well-formed call")
            ELSE IF Changed # {} THEN Reject("changes memory although it fails") ELSE Commit("")
       [] Ev.r = "ok" ->
            IF ~good THEN Reject("accepts malformed arguments")
            ELSE IF viol = "yes" THEN Reject("accepts out-of-bounds points")
            ELSE IF res.dt # dt \/ res.shape # (IF Ev.out # 0 THEN arrs[Ev.out].shape ELSE arrs[Ev.obs[1]].shape)
                 THEN Reject("type or shape of the result")
            ELSE IF Ev.out # 0 /\ ~OnlyChanged(Ev.out) THEN Reject("changes something else than the output")
            ELSE IF Ev.out = 0 /\ Changed # {} THEN Reject("changes its inputs")
            ELSE IF Ev.out # 0 /\ \E k \in 1..n : ~SameNum(Now(Ev.out)[k], res.v[k]) THEN Reject("output array and result differ")
            ELSE IF Ev.out = 0 /\ ~res.fresh THEN Reject("the result shares memory with something else")
            ELSE IF ~ResultsOk(P, obs, res.v) THEN Reject("results")
            ELSE CommitResult

-----------------------------------------------------------------------------
(* Interpolator objects *)

NewStep ==
  /\ Ev.o = "cnew"
  /\ LET ok == CtorOk(Ev) IN
     CASE Ev.r \notin {"ok", "exc"} -> Reject("construction ended with " \o Ev.r)
       [] Changed # {} -> Reject("construction changes its inputs")
       [] Ev.r = "ok" /\ ~ok -> Reject("accepts a malformed problem")
       [] Ev.r = "exc" /\ ok -> Reject("refuses a well-formed problem")
       [] OTHER -> /\ pobjs' = IF ok THEN Put(pobjs, Ev.h, CtorProblem(Ev, CtorDT(Ev))) ELSE pobjs
                   /\ UNCHANGED <<bufs, arrs, docs>> /\ Next1

\* (an evaluation that failed has returned no array for later ones to use)
Known_(ev) == (ev.out = 0 \/ ev.out \in DOMAIN arrs) /\ \A k \in Positions(ev.obs) : ev.obs[k] \in DOMAIN arrs
EvalStep ==
  /\ Ev.o = "ceval" /\ Ev.h \in DOMAIN pobjs /\ Known_(Ev)
  /\ LET P == pobjs[Ev.h]  obs == Contents(Ev.obs)
         n == IF Ev.out # 0 THEN Size(Ev.out) ELSE IF Len(Ev.obs) > 0 THEN Size(Ev.obs[1]) ELSE 0
         typed == /\ Typed(Ev.obs, P.dt) /\ Len(Ev.obs) > 0
                  /\ Ev.out # 0 => InputOk(Ev.out, P.dt)
         free == Ev.out # 0 => OutFree(Ev.obs, Ev.out)
         good == typed /\ BatchOk(NDims(P), obs, n)
     IN
     CASE ~Answer -> Reject("evaluation ended with " \o Ev.r)
       [] Ev.r = "panic" -> IF free \/ Changed # {} THEN Reject("panic") ELSE Commit("")
       [] Ev.r = "ok" ->
            IF ~good THEN Reject("accepts malformed arguments")
            ELSE IF ~free THEN Reject("accepts a read-only or shared output")
            ELSE IF Ev.out # 0 /\ ~OnlyChanged(Ev.out) THEN Reject("changes something else than the output")
            ELSE IF Ev.out = 0 /\ Changed # {} THEN Reject("changes its inputs")
            ELSE IF Ev.res.dt # P.dt \/ Ev.res.shape # <<n>> THEN Reject("type or shape of the result")
            ELSE IF Ev.out # 0 /\ \E k \in 1..n : ~SameNum(Now(Ev.out)[k], Ev.res.v[k]) THEN Reject("output array and result differ")
            ELSE IF Ev.out = 0 /\ ~Ev.res.fresh THEN Reject("the result shares memory with something else")
            ELSE IF ~ResultsOk(P, obs, Ev.res.v) THEN Reject("results")
            ELSE CommitResult
       [] Ev.r = "exc" ->
            IF good /\ free
            THEN IF /\ Ev.out # 0 => (OnlyChanged(Ev.out) /\ GaveUp(P, obs, Content(Ev.out), Now(Ev.out)))
                    /\ Ev.out = 0 => Changed = {}
                    /\ Ev.out = 0 => \E j \in 1..n : MayFail(P, [d \in Positions(obs) |-> obs[d][j]])
                 THEN Commit("") ELSE Reject("exception for a well-formed evaluation")
            ELSE IF Changed # {} THEN Reject("changes memory although it fails") ELSE Commit("")

BoundsStep ==
  /\ Ev.o = "ccb" /\ Ev.h \in DOMAIN pobjs
  /\ LET P == pobjs[Ev.h]  obs == Contents(Ev.obs)
         good == Len(Ev.obs) = NDims(P) /\ \A k \in Positions(Ev.obs) : DT(Ev.obs[k]) = P.dt
     IN
     CASE Ev.r \notin {"ok", "exc"} -> Reject("bounds check ended with " \o Ev.r)
       [] Changed # {} -> Reject("changes its inputs")
       [] Ev.r = "exc" -> IF good THEN Reject("bounds check refuses well-formed input") ELSE Commit("")
       [] OTHER -> IF ~good THEN Reject("bounds check accepts malformed input")
                   ELSE IF Len(Ev.flags) # NDims(P) THEN Reject("number of flags")
                   ELSE IF FlagsBad(P, obs, Ev.atol, Ev.flags) # {} THEN Reject("flags") ELSE Commit("")

\* Attempts to assign to or delete fields are refused
SetStep ==
  /\ Ev.o = "cset" /\ Ev.h \in DOMAIN pobjs
  /\ CASE Ev.r # "exc" -> Reject("assignment ended with " \o Ev.r)
       [] Changed # {} -> Reject("assignment changes memory")
       [] OTHER -> Commit("")

SameSeq(u, v) == Len(u) = Len(v) /\ \A k \in Positions(u) : SameNum(u[k], v[k])
StateStep ==       \* what the object says about itself
  /\ Ev.o = "cstate" /\ Ev.h \in DOMAIN pobjs
  /\ LET P == pobjs[Ev.h] s == Ev.state
         dims == DimsOf(P)
         same == /\ s.ndims = NDims(P) /\ SameSeq(s.dims, dims) /\ SameSeq(s.vals, P.vals.v)
                 /\ \A k \in Positions(s.dts) : s.dts[k] = P.dt
                 /\ P.g = "regular" => (SameSeq(s.starts, P.starts) /\ SameSeq(s.steps, P.steps))
                 /\ P.g = "rectilinear" => Len(s.grids) = Len(P.grids)
                 /\ P.g = "rectilinear" => \A d \in Positions(P.grids) : SameSeq(s.grids[d], P.grids[d].v)
                 /\ P.m = "cubic" => s.lin = P.lin
                 /\ Changed = {}
     IN  IF Ev.r # "ok" THEN Reject("reading the fields ended with " \o Ev.r)
         ELSE IF same THEN Commit("") ELSE Reject("state of the object")

DumpStep ==
  /\ Ev.o = "cdump" /\ Ev.h \in DOMAIN pobjs
  /\ IF Ev.r # "ok" THEN Reject("dump ended with " \o Ev.r)
     ELSE IF Changed # {} THEN Reject("dump changes memory")
     ELSE docs' = Put(docs, Ev.d, Dumped(pobjs[Ev.h])) /\ UNCHANGED <<bufs, arrs, pobjs>> /\ Next1
LoadStep ==
  /\ Ev.o = "cload"
  /\ LET ok == DocOk(Ev.m, Ev.g, docs[Ev.d]) IN
     CASE Ev.r \notin {"ok", "exc"} -> Reject("load ended with " \o Ev.r)
       [] Ev.r = "ok" /\ ~ok -> Reject("accepts a malformed document")
       [] Ev.r = "exc" /\ ok -> Reject("refuses a well-formed document")
       [] Changed # {} -> Reject("load changes memory")
       [] OTHER -> /\ pobjs' = IF ok THEN Put(pobjs, Ev.h, DocProblem(Ev.m, Ev.g, docs[Ev.d])) ELSE pobjs
                   /\ UNCHANGED <<bufs, arrs, docs>> /\ Next1

ObjKinds == {"ceval", "ccb", "cset", "cstate", "cdump"}
NoObj == Ev.o \in ObjKinds /\ (IF Ev.h \notin DOMAIN pobjs THEN TRUE ELSE Ev.o = "ceval" /\ ~Known_(Ev)) /\ (IF Ev.r = "skip" THEN Commit("") ELSE Reject("no such object"))
CrashStep == Ev.o \in {"crash", "hang"} /\ Reject("the interpreter died or hung in this session")

\* Two evaluations with identical results, or two objects in identical states
RelStep == /\ UNCHANGED py
           /\ LET q == S.rel[i] a == S.ev[q.e1] b == S.ev[q.e2] IN
              IF a.r = "skip" \/ b.r = "skip" THEN Next1
              ELSE IF q.k = "state" THEN IF a.r = b.r /\ (a.r = "ok" => a.state.bits = b.state.bits) THEN Next1 ELSE Reject("different states")
              ELSE IF a.r = b.r /\ (a.r = "ok" => SameSeq(a.res.v, b.res.v)) THEN Next1 ELSE Reject("different results")

Next == \/ /\ pc = "ev"
           /\ \/ BufStep \/ ArrStep \/ PokeStep \/ DocStep \/ RawStep \/ HelpStep \/ NewStep \/ EvalStep
              \/ BoundsStep \/ SetStep \/ StateStep \/ DumpStep \/ LoadStep \/ NoObj \/ CrashStep
        \/ pc = "rel" /\ RelStep
        \/ pc \in {"end", "bad"} /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Conforms == pc # "bad"
=============================================================================
