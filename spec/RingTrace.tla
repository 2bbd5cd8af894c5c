----------------------------- MODULE RingTrace ------------------------------
(* recorded histories of the ring buffer, against a FIFO *)
EXTENDS Fifo, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, q, bad
vars == <<t, i, q, bad>>
Init == t \in 1..Len(Traces) /\ i = 0 /\ q = <<>> /\ bad = FALSE

Least(a, b) == IF a <= b THEN a ELSE b
(* what the FIFO holds afterwards *)
After(e) ==
    CASE e.o[1] = "push" -> IF e.r = 0 THEN Norm(Append(q, <<e.o[2], e.o[3]>>))
                            ELSE q
      [] e.o[1] = "pull" -> DropBytes(q, e.o[2])
      [] e.o[1] \in {"flush", "clear"} -> <<>>
      [] OTHER -> q
Diffs(e, x) ==
    (IF e.s # Total(x) THEN {"size"} ELSE {})
    \cup (IF Norm(e.p) # Norm(x) THEN {"content"} ELSE {})
    (* a push fails only if there is no memory, and then it says so *)
    \cup (IF e.o[1] = "push" /\ (e.r # 0) /\ ~(e.r < 0 /\ e.f > 0)
          THEN {"result"} ELSE {})
    \cup (IF e.o[1] = "hugepush" /\ e.r >= 0 THEN {"result"} ELSE {})
    \cup (IF e.o[1] = "copy" /\ (e.r # Least(e.o[2], Total(x))
                                 \/ Norm(e.b) # Norm(TakeBytes(x, e.o[2])))
          THEN {"copy"} ELSE {})
    \cup (IF e.o[1] = "clear" /\ e.m # 0 THEN {"memory"} ELSE {})
Next ==
    /\ ~bad /\ i < Len(Traces[t].steps) /\ t' = t /\ i' = i + 1
    /\ LET e == Traces[t].steps[i + 1]
           (* scripts can prepare something that has no effect by itself *)
           silent == e.o[1] \in {"fail", "elem"}
           x == TLCEval(After(e))
           d == (IF silent THEN {} ELSE Diffs(e, x))
                \cup (IF i + 1 = Len(Traces[t].steps) /\ Traces[t].left # 0
                      THEN {"leak"} ELSE {})
       IN /\ q' = x /\ bad' = (d # {})
          /\ d # {} => PrintT("MISMATCH " \o ToJson(
                [id |-> Traces[t].id, step |-> i, op |-> e.o, diffs |-> d,
                 detail |-> [spec |-> x, real |-> e.p, r |-> e.r]]))
Spec == Init /\ [][Next]_vars
=============================================================================
