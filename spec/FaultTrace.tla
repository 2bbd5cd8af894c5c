----------------------------- MODULE FaultTrace -----------------------------
(***************************************************************************)
(* Recorded histories in which allocations fail (C26).  Which allocation   *)
(* an operation makes first is up to the code, so there can be several     *)
(* states that explain what was observed; st is the set of them.  A call   *)
(* fails as a whole and says so, or lines that scroll off the screen are   *)
(* lost, nothing else.                                                     *)
(***************************************************************************)
EXTENDS Trace

FInit == /\ t \in 1..Len(Traces)
         /\ i = 0
         /\ st = {NoSession}
         /\ ob = <<>>
         /\ bad = FALSE

Reports == {"resize", "pal", "cpal", "selcopy"}
Most == 70
Losing(x, k, all) == [x EXCEPT !.s.lose = k, !.s.loseall = all]
Whole(a) == [a EXCEPT !.st.s.lose = 0 - 1, !.st.s.loseall = FALSE]
(* what can have happened: e.f is how many allocations failed, and whether *)
(* it was the e.f[2]-th or all from there on                               *)
Results(x, e) ==
    {Apply(x, e.o)}
    \cup (IF e.f[1] = 0 THEN {}
          ELSE {Whole(Apply(Losing(x, k, e.f[3] = 1), e.o)) :
                k \in 0..Min2(e.f[2], Most)}
               \cup (IF e.o[1] \in Reports /\ e.r < 0
                     THEN {[st |-> x, r |-> e.r]} ELSE {}))

Leak(d) == IF i + 1 = Len(Traces[t].steps) /\ Traces[t].left # 0
           THEN d \cup {"leak"} ELSE d
Report(tr, e, d, detail) ==
    d # {} => PrintT("MISMATCH " \o ToJson(
        [id |-> tr.id, step |-> i, op |-> e.o, diffs |-> d,
         detail |-> detail]))
FStep ==
    LET tr == Traces[t]
        e == tr.steps[i + 1]
    IN /\ i' = i + 1
       /\ t' = t
       /\ CASE e.o[1] = "fail" -> /\ UNCHANGED <<st, ob>>
                                 /\ bad' = (Leak({}) # {})
                                 /\ Report(tr, e, Leak({}), 0)
            [] e.o[1] = "none" ->
                 LET d == Leak((IF e.r < 0 /\ e.f > 0 THEN {} ELSE {"result"})
                               \cup (IF e.m # 0 THEN {"leak"} ELSE {}))
                 IN /\ UNCHANGED <<st, ob>>
                    /\ bad' = (d # {})
                    /\ Report(tr, e, d, e.r)
            [] OTHER ->
                 LET o == TLCEval(Observed(ob, e))
                     all == TLCEval(UNION {Results(x, e) : x \in st})
                     ok == TLCEval({a \in all :
                                    Diffs(a.st, a.r, e, o, tr.cells) = {}})
                     one == Apply(CHOOSE x \in st : TRUE, e.o)
                     d == Leak(IF ok # {} THEN {}
                               ELSE Diffs(one.st, one.r, e, o, tr.cells))
                 IN /\ st' = {[a.st EXCEPT !.out = <<>>] : a \in ok}
                    /\ ob' = o
                    /\ bad' = (d # {})
                    /\ Report(tr, e, d,
                         IF ok # {} THEN [left |-> tr.left]
                         ELSE Detail(one.st, one.r, e, o, tr.cells, d))
FNext == ~bad /\ i < Len(Traces[t].steps) /\ FStep
FSpec == FInit /\ [][FNext]_vars
=============================================================================
