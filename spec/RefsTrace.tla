----------------------------- MODULE RefsTrace -----------------------------
(***************************************************************************)
(* Recorded histories of references (C25): what is needed can be used, and *)
(* when nothing is needed there is no memory left.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Null

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, w, bad
vars == <<t, i, w, bad>>

N == 12
IsVte(k) == k \in 4..7
IsPty(k) == k >= 10
(* app: references of the application; on: the screen; c: the character;    *)
(* shut: a PTY that was closed                                              *)
None == [app |-> 0, on |-> -1, c |-> -1, shut |-> FALSE]
Init == t \in 1..Len(Traces) /\ i = 0 /\ bad = FALSE
        /\ w = [k \in 0..(N - 1) |-> None]

Held(x, k) == \E v \in 4..7 : x[v].app > 0 /\ x[v].on = k
Needed(x, k) == x[k].app > 0 \/ Held(x, k)
Root(x, k) == IF IsVte(k) THEN x[k].on ELSE k

Apply(x, e) ==
    LET op == e.o[1]
        k == e.o[2]
    IN IF e.n = 1 THEN x
       ELSE CASE op \in {"snew", "tnew", "pnew"} ->
                   IF e.r = 0 THEN [x EXCEPT ![k] = [None EXCEPT !.app = 1]]
                   ELSE x
              [] op = "vnew" ->
                   LET r == Root(x, e.o[3])
                   IN IF e.r = 0
                      THEN [x EXCEPT ![k] = [None EXCEPT !.app = 1, !.on = r],
                                     ![r].c = -1]
                      ELSE x
              [] op = "ref" -> [x EXCEPT ![k].app = @ + 1]
              [] op = "unref" -> [x EXCEPT ![k].app = @ - 1]
              [] op = "put" -> [x EXCEPT ![Root(x, k)].c =
                                  IF k = Root(x, k) /\ k \in 8..9 /\ e.f > 0
                                  THEN -1 ELSE e.o[3]]
              [] op = "busy" -> IF k \in 8..9 THEN x
                                ELSE [x EXCEPT ![Root(x, k)].c = -1]
              [] op = "close" -> [x EXCEPT ![k].shut = TRUE]
              [] OTHER -> x
(* the harness and this specification agree on what is there *)
Agree(x, e) ==
    LET op == e.o[1] k == e.o[2]
    IN (e.n = 1) = (CASE op \in {"snew", "tnew", "pnew"} -> Needed(x, k)
                      [] op = "vnew" -> Needed(x, k) \/ e.o[3] > 7
                                        \/ ~Needed(x, e.o[3])
                      [] op \in {"ref", "unref"} -> x[k].app = 0
                      [] op = "null" -> FALSE
                      [] op = "close" -> ~Needed(x, k) \/ ~IsPty(k)
                      [] OTHER -> ~Needed(x, k))
Diffs(x, y, e) ==
    LET op == e.o[1] k == e.o[2]
    IN (IF ~Agree(x, e) THEN {"harness"} ELSE {})
       \cup (IF e.n = 0 /\ op \in {"snew", "vnew", "tnew", "pnew"}
             THEN (IF e.r # 0 /\ ~(e.r < 0 /\ e.f > 0) THEN {"result"} ELSE {})
                  \cup (IF e.r # 0 /\ e.m # e.b THEN {"leak"} ELSE {})
             ELSE {})
       \cup (IF op = "null"
             THEN (IF e.r = 1000 THEN {"harness"} ELSE {})
                  \cup (IF ~Right(e.w, e.r) THEN {"null"} ELSE {})
                  \cup (IF e.m # e.b THEN {"leak"} ELSE {})
             ELSE {})
       \cup (IF e.n = 0 /\ op = "put" /\ IsPty(k) /\ e.r # 0 /\ e.f = 0
                   /\ ~x[k].shut
             THEN {"result"} ELSE {})
       \cup (IF e.n = 0 /\ op \in {"unref", "close"} /\ e.r # 0 THEN {"open"} ELSE {})
       \cup (IF e.n = 0 /\ op = "see"
             THEN IF IsPty(k) THEN (IF e.r # (IF x[k].shut THEN 0 ELSE 1) THEN {"use"} ELSE {})
                  ELSE IF x[Root(x, k)].c >= 0 /\ e.r # x[Root(x, k)].c
                  THEN {"use"} ELSE {}
             ELSE {})
       \cup (IF (\A n \in 0..(N - 1) : ~Needed(y, n)) # (e.m = 0)
             THEN {"memory"} ELSE {})
Next ==
    /\ ~bad /\ i < Len(Traces[t].steps) /\ t' = t /\ i' = i + 1
    /\ LET e == Traces[t].steps[i + 1]
           silent == e.o[1] = "fail"
           x == IF silent THEN w ELSE TLCEval(Apply(w, e))
           d == (IF silent THEN {} ELSE Diffs(w, x, e))
                \cup (IF i + 1 = Len(Traces[t].steps) /\ Traces[t].left # 0
                      THEN {"leak"} ELSE {})
       IN /\ w' = x /\ bad' = (d # {})
          /\ d # {} => PrintT("MISMATCH " \o ToJson(
                [id |-> Traces[t].id, step |-> i, op |-> e.o, diffs |-> d,
                 detail |-> [real |-> e, left |-> Traces[t].left]]))
Spec == Init /\ [][Next]_vars
=============================================================================
