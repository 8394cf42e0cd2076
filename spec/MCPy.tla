-------------------------------- MODULE MCPy --------------------------------
(***************************************************************************)
(* The Python package at work on a small memory: a caller pokes numbers    *)
(* into shared buffers, builds interpolator objects from views of them,    *)
(* evaluates, dumps and loads the objects, calls the raw functions and the *)
(* helper with fitting and unfitting, overlapping and read-only arrays.    *)
(* What every operation does is stated by Does(ev), in terms of PyLib; the *)
(* properties are about memory and objects over whole histories.           *)
(* Exhaustive to a depth with Record = FALSE; with Record = TRUE random    *)
(* histories are printed as sessions for the real package.                 *)
(***************************************************************************)
EXTENDS PyLib, FiniteSets, Json, Randomization

CONSTANTS Record, MaxOps, Handles
VARIABLES last,      \* the operation that was just performed, with its outcome
          ops,       \* how many so far
          hist
vars == <<py, last, ops, hist>>

-----------------------------------------------------------------------------
(* Memory: buffers b1..b6 and views of them *)
Buf(dt, v) == [dt |-> dt, v |-> v]
Pool == <<
  Buf("f64", <<"0", "1", "3", "4", "2", "5", "6", "8", "0", "1", "2", "3", "1/2", "1">>),
  Buf("f64", <<"5", "-3", "2", "7", "1", "0", "-8", "4", "9", "-1", "6", "3", "-2", "8", "-5", "2", "4", "-7", "0", "1", "5", "6", "-9", "2">>),
  Buf("f64", <<"1/2", "7/2", "-1", "2", "11/2", "9", "70", "71", "72", "73", "74", "75">>),
  Buf("f32", <<"0", "1", "2", "4", "3", "-6", "5", "1", "1/4", "9/2", "-2", "80", "81", "82", "0", "1", "2", "3">>),
  Buf("bool", <<"1", "0", "1">>),
  Buf("i64", <<"1", "2", "3", "5">>)>>
View(b, off, shape, strides, ro) == [b |-> b, off |-> off, shape |-> shape, strides |-> strides, ro |-> ro]
V1(b, off, n) == View(b, off, <<n>>, <<1>>, FALSE)
Views == <<
  \* grids, starts, steps
  V1(1, 0, 4), V1(1, 4, 4), V1(1, 8, 4), V1(1, 1, 3), View(1, 0, <<4>>, <<2>>, FALSE), View(1, 3, <<4>>, <<-1>>, FALSE),     \* 1..6
  V1(1, 0, 2), V1(1, 12, 2), V1(1, 0, 1), V1(1, 13, 1),                                                                    \* 7..10
  \* values
  V1(2, 0, 4), V1(2, 0, 16), View(2, 4, <<4, 4>>, <<4, 1>>, FALSE), View(2, 0, <<4, 4>>, <<1, 4>>, FALSE),                 \* 11..14
  View(2, 8, <<16>>, <<1>>, TRUE), V1(2, 0, 12), View(2, 1, <<4>>, <<3>>, FALSE),                                          \* 15..17
  \* points, results
  V1(3, 0, 3), V1(3, 3, 3), View(3, 0, <<3>>, <<2>>, FALSE), V1(3, 5, 0), View(3, 0, <<1, 3>>, <<3, 1>>, FALSE), V1(3, 6, 2),  \* 18..23
  V1(3, 6, 3), V1(3, 2, 3), View(3, 6, <<3>>, <<1>>, TRUE), V1(2, 20, 3), V1(2, 0, 3), View(3, 6, <<3>>, <<2>>, FALSE),    \* 24..29
  \* single precision
  V1(4, 0, 4), V1(4, 4, 4), V1(4, 8, 3), V1(4, 11, 3), V1(4, 0, 1), V1(4, 1, 1), V1(4, 14, 4),                             \* 30..36
  \* flags, integers
  V1(5, 0, 1), V1(5, 0, 2), View(5, 0, <<2>>, <<1>>, TRUE), V1(6, 0, 3), V1(6, 0, 4)>>                                     \* 37..41

Init == /\ bufs = Pool /\ arrs = Views /\ pobjs = <<>> /\ docs = <<>>
        /\ last = [o |-> "none", r |-> "", h |-> 0, d |-> 0, out |-> 0] /\ ops = 0 /\ hist = <<>>

\* one of them at random in histories, any of them otherwise
From(S) == IF Record THEN {RandomElement(S)} ELSE S

-----------------------------------------------------------------------------
(* What an operation does: [r, bufs, pobjs, docs] after it.  r = "any" when  *)
(* both outcomes are allowed (a violation within rounding, say).             *)

RECURSIVE Write_(_, _, _, _)
Write_(B, a, ys, k) == IF k > Len(ys) THEN B
                       ELSE Write_([B EXCEPT ![arrs[a].b].v[Addr(a, k - 1)] = ys[k]], a, ys, k + 1)
Nothing(r) == [r |-> r, bufs |-> bufs, pobjs |-> pobjs, docs |-> docs]
Writes(a, ys) == [Nothing("ok") EXCEPT !.bufs = IF a = 0 THEN bufs ELSE Write_(bufs, a, ys, 1)]
Binds(h, P) == [Nothing("ok") EXCEPT !.pobjs = Put(pobjs, h, P)]
ValuesOf(P, obs, n) == [j \in 1..n |-> LET x == [d \in Positions(obs) |-> RParse(obs[d][j])] IN RShow(Value(P, x))]
Simple(v) == \A k \in Positions(v) : IsNum(v[k])

DoRaw(ev) ==
  LET P == RawProblem(ev)  obs == Contents(ev.obs)  n == Size(ev.out)
      typed == Typed(RawInputs(ev), ev.dt) /\ InputOk(ev.out, OutType(ev)) /\ CountsOk(ev)
      free == OutFree(RawInputs(ev), ev.out)
      good == IF ev.f = "cb" THEN BoundsOk(P, obs, n) = "yes" ELSE CallOk(P, obs, n)
  IN  IF ~(typed /\ free /\ good) THEN Nothing("exc")
      ELSE IF ev.f = "cb"
      THEN Writes(ev.out, [d \in 1..n |-> IF MustFlag(P, d, obs[d], RParse(ev.atol), Zero) THEN "1" ELSE "0"])
      ELSE IF Ascending(P) THEN Writes(ev.out, ValuesOf(P, obs, n)) ELSE Nothing("ok")
DoHelp(ev) ==
  LET dt == DT(ev.vals)  obs == Contents(ev.obs)
      n == IF ev.out # 0 THEN Size(ev.out) ELSE IF Len(ev.obs) > 0 THEN Size(ev.obs[1]) ELSE 0
      typed == /\ dt \in {"f64", "f32"} /\ ev.method \in {"linear", "cubic", "nearest"} /\ Len(ev.obs) > 0
               /\ \A k \in Positions(ev.grids) : Size(ev.grids[k]) >= 2 /\ DT(ev.grids[k]) = dt
               /\ \A k \in Positions(ev.obs) : DT(ev.obs[k]) = dt
               /\ ev.out # 0 => DT(ev.out) = dt
      P == HelperProblem(ev, dt)
      good == typed /\ CallOk(P, obs, n)
      viol == IF good /\ ev.check THEN \E d \in Positions(obs) : MustFlag(P, d, obs[d], RParse(ev.atol), Zero) ELSE FALSE
      free == ev.out # 0 => ~arrs[ev.out].ro /\ \A a \in {ev.obs[k] : k \in Positions(ev.obs)} : ~Overlap(a, ev.out)
      okshape == ev.out # 0 => Size(ev.out) = Size(ev.obs[1])
  IN  IF ~good \/ viol \/ ~okshape \/ ~free THEN Nothing("exc") ELSE IF ~Ascending(P) THEN Nothing("ok") ELSE Writes(ev.out, ValuesOf(P, obs, n))
DoEval(ev) ==
  LET P == pobjs[ev.h]  obs == Contents(ev.obs)
      n == IF ev.out # 0 THEN Size(ev.out) ELSE IF Len(ev.obs) > 0 THEN Size(ev.obs[1]) ELSE 0
      typed == Typed(ev.obs, P.dt) /\ Len(ev.obs) > 0 /\ (ev.out # 0 => InputOk(ev.out, P.dt) /\ OutFree(ev.obs, ev.out))
  IN  IF typed /\ BatchOk(NDims(P), obs, n) THEN Writes(ev.out, ValuesOf(P, obs, n)) ELSE Nothing("exc")
Does(ev) ==
  CASE ev.o = "poke"  -> [Nothing("ok") EXCEPT !.bufs[ev.b].v[ev.i + 1] = ev.v]
    [] ev.o = "cnew"  -> IF CtorOk(ev) THEN Binds(ev.h, CtorProblem(ev, CtorDT(ev))) ELSE Nothing("exc")
    [] ev.o = "ceval" -> DoEval(ev)
    [] ev.o = "raw"   -> DoRaw(ev)
    [] ev.o = "help"  -> DoHelp(ev)
    [] ev.o = "ccb"   -> Nothing(IF Len(ev.obs) = NDims(pobjs[ev.h]) /\ \A k \in Positions(ev.obs) : DT(ev.obs[k]) = pobjs[ev.h].dt THEN "ok" ELSE "exc")
    [] ev.o = "cset"  -> Nothing("exc")
    [] ev.o = "cstate" -> Nothing("ok")
    [] ev.o = "cdump" -> [Nothing("ok") EXCEPT !.docs = Put(docs, ev.d, Dumped(pobjs[ev.h]))]
    [] ev.o = "cload" -> IF DocOk(ev.m, ev.g, docs[ev.d]) THEN Binds(ev.h, DocProblem(ev.m, ev.g, docs[ev.d])) ELSE Nothing("exc")

Perform(ev) ==
  LET w == Does(ev) IN
  /\ bufs' = w.bufs /\ pobjs' = w.pobjs /\ docs' = w.docs /\ UNCHANGED arrs
  /\ last' = [o |-> ev.o, r |-> w.r, h |-> IF "h" \in DOMAIN ev THEN ev.h ELSE 0, d |-> IF "d" \in DOMAIN ev THEN ev.d ELSE 0,
              out |-> IF "out" \in DOMAIN ev THEN ev.out ELSE 0]
  /\ ops' = ops + 1
  /\ hist' = IF Record THEN Append(hist, ev) ELSE hist

-----------------------------------------------------------------------------
(* Operations *)
Pos_(lo, S) == UNION {[1..k -> S] : k \in lo..2}
\* mostly pokes after which the grids are still grids
Sound(b, i, v) == b # 1 \/ (IF i \in {0, 4, 8} THEN v \notin {"6", "12"} ELSE v \notin {"0", "-1", "12", "1/8"})
Pokes == IF Record
         THEN LET at(b) == {[o |-> "poke", b |-> b, i |-> i, v |-> v] : i \in 0..(Len(Pool[b].v) - 1), v \in {"0", "-1", "7/2", "6", "12", "1/8"}}
              IN  {e \in at(1) \cup at(2) \cup at(3) \cup at(4) : Sound(e.b, e.i, e.v)}
         ELSE {[o |-> "poke", b |-> q[1], i |-> q[2], v |-> q[3]] : q \in {<<1, 1, "7/2">>, <<2, 1, "6">>, <<1, 13, "0">>, <<3, 1, "-1">>}}
DoPoke == \E e \in From(Pokes) : Perform(e)

Meths == {"linear", "cubic", "nearest"}
\* arrays that fit each other
FitReg == {[dims |-> <<4>>, starts |-> 9, steps |-> 10, vals |-> v] : v \in {11, 17}}
          \cup {[dims |-> <<4, 4>>, starts |-> 7, steps |-> 8, vals |-> v] : v \in {12, 13, 14, 15}}
          \cup {[dims |-> <<4, 3>>, starts |-> 7, steps |-> 8, vals |-> 16], [dims |-> <<4>>, starts |-> 34, steps |-> 35, vals |-> 31],
                [dims |-> <<3>>, starts |-> 10, steps |-> 9, vals |-> 18]}
FitRect == {[grids |-> <<a>>, vals |-> v] : a \in {1, 2, 3}, v \in {11, 17}} \cup {[grids |-> <<4>>, vals |-> 18]}
           \cup {[grids |-> <<a, b>>, vals |-> v] : a \in {1, 2}, b \in {2, 3}, v \in {12, 13, 14, 15}}
           \cup {[grids |-> <<2, 4>>, vals |-> 16], [grids |-> <<30>>, vals |-> 31], [grids |-> <<36>>, vals |-> 31]}
AnyReg == [dims : {<<4>>, <<3>>, <<4, 4>>, <<4, 3>>, <<2>>}, starts : {7, 9, 34, 6, 41}, steps : {8, 10, 35, 5}, vals : {11, 12, 14, 16, 17, 31, 41}]
AnyRect == [grids : Pos_(1, {1, 2, 3, 4, 5, 6, 30, 41}), vals : {11, 12, 14, 16, 17, 31, 41}]
Regs == IF Record THEN FitReg ELSE {[dims |-> <<4>>, starts |-> 9, steps |-> 10, vals |-> 11], [dims |-> <<4>>, starts |-> 34, steps |-> 35, vals |-> 31]}
Rects == IF Record THEN FitRect ELSE {[grids |-> <<1>>, vals |-> 11], [grids |-> <<3, 2>>, vals |-> 14]}
Args(g, wild) == IF g = "regular"
                 THEN {[dims |-> q.dims, starts |-> q.starts, steps |-> q.steps, grids |-> <<>>, vals |-> q.vals] : q \in From(IF wild THEN AnyReg ELSE Regs)}
                 ELSE {[dims |-> <<>>, starts |-> 0, steps |-> 0, grids |-> q.grids, vals |-> q.vals] : q \in From(IF wild THEN AnyRect ELSE Rects)}
Wild == IF Record THEN {RandomElement(1..9) = 1} ELSE {FALSE}
Coin == IF Record THEN BOOLEAN ELSE {FALSE}
MG == IF Record THEN Meths \X {"regular", "rectilinear"} ELSE {<<"linear", "regular">>, <<"cubic", "rectilinear">>}
Types(as) == [k \in Positions(as) |-> IF DT(as[k]) = "f32" THEN "f32" ELSE "f64"]
DoNew == \E mg \in From(MG) : \E wild \in Wild : \E q \in Args(mg[2], wild) : \E via \in From(IF Record THEN {"new", "ctor"} ELSE {"new"}) :
         \E lin \in From(Coin) : \E h \in From(1..Handles) :
           LET as == IF mg[2] = "regular" THEN <<q.starts, q.steps, q.vals>> ELSE Append(q.grids, q.vals)
           IN  Perform([o |-> "cnew", h |-> h, m |-> mg[1], g |-> mg[2], via |-> via, dims |-> q.dims, starts |-> q.starts, steps |-> q.steps,
                        grids |-> q.grids, vals |-> q.vals, lin |-> lin, types |-> Types(as)])

\* points and results
Points(n, dt, wild) == IF wild THEN Pos_(0, {18, 19, 20, 21, 22, 23, 32, 40})
                       ELSE IF dt = "f32" THEN {[d \in 1..n |-> 32]} ELSE [1..n -> IF Record THEN {18, 19} ELSE {19}]
Outs(dt, wild) == IF wild THEN {0, 20, 21, 23, 25, 26, 28, 29, 33, 18, 40} ELSE IF dt = "f32" THEN {0, 33} ELSE {0, 24, 27, 28}
Some == DOMAIN pobjs # {}
DoEvaluate ==
  Some /\ \E h \in From(DOMAIN pobjs) : \E w1 \in Wild, w2 \in Wild, un \in From(Coin) :
            \E obs \in From(Points(NDims(pobjs[h]), pobjs[h].dt, w1)) : \E out \in From(Outs(pobjs[h].dt, w2)) :
              Perform([o |-> "ceval", h |-> h, obs |-> obs, out |-> out, unchecked |-> un])
DoBounds == Record /\ Some /\ \E h \in From(DOMAIN pobjs) : \E w1 \in Wild : \E obs \in From(Points(NDims(pobjs[h]), pobjs[h].dt, w1)) :
              \E at \in From({"0", "1/4", "9"}) : Perform([o |-> "ccb", h |-> h, obs |-> obs, atol |-> at])
DoLook == Record /\ Some /\ \E h \in From(DOMAIN pobjs) : Perform([o |-> "cstate", h |-> h])
DoSet == Some /\ \E h \in From(DOMAIN pobjs) : \E f \in From(IF Record THEN {"vals", "vals.data", "del", "new", "vals.dtype"} ELSE {"vals"}) :
           Perform([o |-> "cset", h |-> h, field |-> f])
DoDump == Some /\ \E h \in From(DOMAIN pobjs) : \E how \in From(IF Record THEN {"json", "dict", "pyjson", "jsondict", "copy", "mcopy", "pickle"} ELSE {"json"}) :
            Perform([o |-> "cdump", h |-> h, d |-> h, how |-> how])
\* (a Python object or pickle is loaded as what it is)
Hows(d) == {hist[k].how : k \in {q \in 1..Len(hist) : hist[q].o = "cdump" /\ hist[q].d = d}}
Fields_(d) == IF docs[d].lin \in BOOLEAN /\ \E k \in Positions(docs[d].has) : docs[d].has[k] = "linearize_extrapolation" THEN {"cubic"} ELSE {"linear", "nearest"}
KindOf(d) == IF \E k \in Positions(docs[d].has) : docs[d].has[k] = "grids" THEN "rectilinear" ELSE "regular"
DoLoad == DOMAIN docs # {} /\ \E d \in From(DOMAIN docs) : \E h \in From(1..Handles) :
            \E m \in From(IF Record /\ Hows(d) \cap {"copy", "mcopy", "pickle"} = {} THEN Meths ELSE Fields_(d)) :
              /\ (Hows(d) \cap {"copy", "mcopy", "pickle"} # {} => Fields_(d) = {"cubic"})
              /\ Perform([o |-> "cload", h |-> h, d |-> d, m |-> m, g |-> KindOf(d)])
DoRawCall ==
  \E mg \in From(MG) : \E w0 \in Wild, w1 \in Wild, w2 \in Wild : \E q \in Args(mg[2], w0) : \E lin \in From(Coin) : \E cb \in From(Coin) :
    LET n == IF mg[2] = "regular" THEN Len(q.dims) ELSE Len(q.grids) dt == DT(q.vals) IN
    \E obs \in From(Points(n, dt, w1)) : \E out \in From(IF cb THEN {37, 38, 39, 24} ELSE Outs(dt, w2) \ {0}) :
    \E rdt \in From(IF Record THEN (IF w2 THEN {"f64", "f32"} ELSE {IF dt = "f32" THEN "f32" ELSE "f64"}) ELSE {dt}) :
      Perform([o |-> "raw", f |-> IF cb THEN "cb" ELSE mg[1], g |-> mg[2], dt |-> rdt, dims |-> q.dims, starts |-> q.starts, steps |-> q.steps,
               grids |-> q.grids, vals |-> q.vals, lin |-> lin, obs |-> obs, out |-> out, atol |-> "1/4", drop |-> 0, npdims |-> lin])
DoHelper ==
  Record /\ \E m \in From(Meths) : \E w0 \in Wild, w1 \in Wild, w2 \in Wild : \E q \in Args("rectilinear", w0) :
    \E lin \in From(Coin), as \in From(Coin), ck \in From(Coin) :
    \E obs \in From(Points(Len(q.grids), DT(q.vals), w1)) : \E out \in From(Outs(DT(q.vals), w2)) :
      Perform([o |-> "help", grids |-> q.grids, vals |-> q.vals, obs |-> obs, out |-> out, method |-> m, lin |-> lin, assume |-> as, check |-> ck, atol |-> "1/4"])

Going == ops < MaxOps
Emit == /\ Record /\ ops = MaxOps /\ ops' = MaxOps + 1
        /\ PrintT("SESSION " \o ToJson(hist)) /\ UNCHANGED <<py, last, hist>>
Next == \/ Going /\ (DoPoke \/ DoNew \/ DoEvaluate \/ DoBounds \/ DoLook \/ DoSet \/ DoDump \/ DoLoad \/ DoRawCall \/ DoHelper)
        \/ Emit
Spec == Init /\ [][Next]_vars
ASSUME Record => PrintT("POOL " \o ToJson([bufs |-> Pool, arrs |-> Views]))

-----------------------------------------------------------------------------
\* C23: objects are well formed, and change only by being bound anew
ObjectsOk == \A h \in DOMAIN pobjs : PyProblemOk(pobjs[h]) /\ pobjs[h].dt \in {"f64", "f32"}
Snapshots == [][\A h \in DOMAIN pobjs : pobjs'[h] # pobjs[h] => last'.o \in {"cnew", "cload"} /\ last'.h = h /\ last'.r = "ok"]_vars
Kept == [][DOMAIN pobjs \subseteq DOMAIN pobjs']_vars
\* C21, C25: an operation changes the elements of its output and nothing else; nothing if it fails
OnlyOut == [][last'.o # "poke" =>
               \A b \in DOMAIN bufs : \A i \in Positions(bufs[b].v) :
                 bufs'[b].v[i] # bufs[b].v[i] => /\ last'.r = "ok" /\ last'.out # 0
                                                 /\ b = arrs[last'.out].b /\ i \in Cells(last'.out) /\ ~arrs[last'.out].ro]_vars
\* C24: what is dumped is loaded as it was
RoundTrip == \A h \in DOMAIN pobjs :
               LET P == pobjs[h] D == Dumped(P) IN
               /\ DocOk(P.m, P.g, D) /\ DocProblem(P.m, P.g, D) = P /\ Dumped(DocProblem(P.m, P.g, D)) = D
               /\ \A m \in Meths, g \in {"regular", "rectilinear"} : (g # P.g \/ (m = "cubic") # (P.m = "cubic")) => ~DocOk(m, g, D)
DocsStay == [][\A d \in DOMAIN docs : docs'[d] # docs[d] => last'.o = "cdump" /\ last'.d = d]_vars
=============================================================================
