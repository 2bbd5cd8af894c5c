---------------------------- MODULE HtableTrace -----------------------------
(***************************************************************************)
(* Recorded histories of the hash table, against a multiset.  Elements     *)
(* with the same key have the same hash; which of several elements with    *)
(* the same key is found or removed is not determined.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, h, bad
vars == <<t, i, h, bad>>
(* h: how often element k (from 1 on) is held *)
Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ bad = FALSE
        /\ h = [k \in 1..Len(Traces[t].elems) |-> 0]

Key(k) == Traces[t].elems[k][1]
Matches(key) == {k \in DOMAIN h : h[k] > 0 /\ Key(k) = key}
(* n lists every held element as often as it is held *)
AllOf(n) == \A k \in DOMAIN h :
               Cardinality({j \in 1..Len(n) : n[j] = k - 1}) = h[k]
Listed(n) == Len(n) = Cardinality(UNION {{k} \X (1..h[k]) : k \in DOMAIN h})
             /\ AllOf(n)

(* the new state, or <<>> if e is not possible *)
After(e) ==
    CASE e.o[1] = "ins" ->
            IF e.r = 0 THEN [h EXCEPT ![e.o[2] + 1] = @ + 1]
            ELSE IF e.r < 0 /\ e.f > 0 THEN h ELSE <<>>
      [] e.o[1] = "find" ->
            IF (e.r = 0 /\ Matches(e.o[2]) = {}) \/ e.r \in Matches(e.o[2])
            THEN h ELSE <<>>
      [] e.o[1] = "rem" ->
            IF e.r = 0 /\ Matches(e.o[2]) = {} THEN h
            ELSE IF e.r \in Matches(e.o[2]) THEN [h EXCEPT ![e.r] = @ - 1]
            ELSE <<>>
      [] e.o[1] = "visit" -> IF Listed(e.n) THEN h ELSE <<>>
      [] e.o[1] = "hclear" ->
            IF Listed(e.n) THEN [k \in DOMAIN h |-> 0] ELSE <<>>

Next ==
    /\ ~bad /\ i < Len(Traces[t].steps) /\ t' = t /\ i' = i + 1
    /\ LET e == Traces[t].steps[i + 1]
           (* scripts can prepare something that has no effect by itself *)
           silent == e.o[1] \in {"fail", "elem", "kind"}
           x == TLCEval(IF silent THEN h ELSE After(e))
           d == (IF x = <<>> /\ h # <<>> THEN {e.o[1]} ELSE {})
                \cup (IF "wild" \in DOMAIN e THEN {"wild"} ELSE {})
                \cup (IF i + 1 = Len(Traces[t].steps) /\ Traces[t].left # 0
                      THEN {"leak"} ELSE {})
       IN /\ h' = (IF d = {} THEN x ELSE h) /\ bad' = (d # {})
          /\ d # {} => PrintT("MISMATCH " \o ToJson(
                [id |-> Traces[t].id, step |-> i, op |-> e.o, diffs |-> d,
                 detail |-> [r |-> e.r,
                             held |-> {<<k - 1, h[k]>> : k \in
                                         {j \in DOMAIN h : h[j] > 0}}]]))
Spec == Init /\ [][Next]_vars
=============================================================================
