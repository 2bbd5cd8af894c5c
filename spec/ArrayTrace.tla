----------------------------- MODULE ArrayTrace -----------------------------
(* recorded histories of the dynamic array, against a sequence *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, q, bad
vars == <<t, i, q, bad>>
(* q.es: size of an element, 0 if there is no array; q.n: the length; q.s:
   the elements, as runs of equal ones: they are many *)
None == [es |-> 0, n |-> 0, s |-> <<>>]
Add(c, v, n) ==
    IF n = 0 THEN c
    ELSE IF c # <<>> /\ Last(c)[1] = v THEN [c EXCEPT ![Len(c)][2] = @ + n]
    ELSE Append(c, <<v, n>>)
RECURSIVE Cut(_, _)
Cut(c, k) ==
    IF k = 0 THEN c
    ELSE LET l == Last(c)
         IN IF l[2] > k THEN [c EXCEPT ![Len(c)][2] = @ - k]
            ELSE Cut(Front(c), k - l[2])
Init == t \in 1..Len(Traces) /\ i = 0 /\ q = None /\ bad = FALSE

Invalid == 0 - 22
NoMem == 0 - 12
Resized(x, n) == [x EXCEPT !.n = n, !.s = IF n > x.n THEN Add(@, 0, n - x.n)
                                          ELSE Cut(@, x.n - n)]
(* an error changes nothing, and needs a reason *)
Failed(e, x) == IF e.r = 0 THEN x ELSE IF e.r = NoMem /\ e.f > 0 THEN q
                ELSE [x EXCEPT !.es = -1]
After(e) ==
    LET o == e.o IN
    CASE o[1] = "anew" ->
           IF o[2] = 0 THEN IF e.r = Invalid THEN None ELSE [None EXCEPT !.es = -1]
           ELSE IF e.r # 0 /\ e.f > 0 THEN None
           ELSE IF e.r = 0 THEN [None EXCEPT !.es = o[2]]
           ELSE [None EXCEPT !.es = -1]
      [] o[1] = "afree" -> None
      [] o[1] = "apush" -> IF q.es = 0 THEN [q EXCEPT !.es = IF e.r = Invalid THEN 0 ELSE -1]
                           ELSE Failed(e, [q EXCEPT !.n = @ + 1,
                                                     !.s = Add(@, o[2], 1)])
      [] o[1] = "apushnull" -> IF e.r = Invalid THEN q ELSE [q EXCEPT !.es = -1]
      [] o[1] = "apop" -> IF q.n = 0 THEN q ELSE Resized(q, q.n - 1)
      [] o[1] = "aresize" -> IF q.es = 0 THEN [q EXCEPT !.es = IF e.r = Invalid THEN 0 ELSE -1]
                             ELSE Failed(e, Resized(q, o[2]))
      [] o[1] = "ahuge" -> IF e.r < 0 THEN q ELSE [q EXCEPT !.es = -1]
      [] OTHER -> q
Diffs(e, x) ==
    IF x.es = -1 THEN {"result"}
    ELSE (IF e.l # x.n THEN {"length"} ELSE {})
         \cup (IF e.e # x.es \/ e.b # x.es * x.n THEN {"size"} ELSE {})
         \cup (IF e.c # x.s THEN {"content"} ELSE {})
         \cup (IF x.es = 0 /\ e.m # 0 THEN {"memory"} ELSE {})
Next ==
    /\ ~bad /\ i < Len(Traces[t].steps) /\ t' = t /\ i' = i + 1
    /\ LET e == Traces[t].steps[i + 1]
           silent == e.o[1] \in {"fail", "elem", "kind"}
           x == TLCEval(IF silent THEN q ELSE After(e))
           d == (IF silent THEN {} ELSE Diffs(e, x))
                \cup (IF i + 1 = Len(Traces[t].steps) /\ Traces[t].left # 0
                      THEN {"leak"} ELSE {})
       IN /\ q' = x /\ bad' = (d # {})
          /\ d # {} => PrintT("MISMATCH " \o ToJson(
                [id |-> Traces[t].id, step |-> i, op |-> e.o, diffs |-> d,
                 detail |-> [spec |-> x, real |-> IF silent THEN <<>> ELSE e.c,
                             r |-> IF silent THEN 0 ELSE e.r]]))
Spec == Init /\ [][Next]_vars
=============================================================================
