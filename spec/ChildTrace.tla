----------------------------- MODULE ChildTrace -----------------------------
(* children on real terminals, as they and the application see it *)
EXTENDS Session, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, w, bad
vars == <<t, i, w, bad>>
Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ bad = FALSE
        /\ w = [k \in 0..2 |-> None]

Erase == 8
(* the last fault asked for is an interruption *)
Interrupted(n) ==
    LET f == {j \in 1..n : Traces[t].steps[j].o[1] = "fault"}
    IN f # {} /\ LET o == Traces[t].steps[CHOOSE j \in f : \A k \in f : k <= j].o
                 IN Len(o) > 3
Opened(e) == e.r = 1
DiffsOpen(e, n) ==
    LET o == e.o
        fails == e.a > 0 \/ (e.f > 0 /\ ~Interrupted(n))
    IN IF Opened(e)
       THEN IF e.child = <<>> THEN {"child"}
            ELSE LET c == e.child[1]
                 IN (IF c.sid # 1 THEN {"session"} ELSE {})
                    \cup (IF c.fg # 1 THEN {"foreground"} ELSE {})
                    \cup (IF c.tty # 3 THEN {"stdio"} ELSE {})
                    \cup (IF c.ctl # 1 THEN {"controlling terminal"} ELSE {})
                    \cup (IF c.ws # <<o[3], o[4]>> THEN {"size"} ELSE {})
                    \cup (IF c.erase # Erase THEN {"erase"} ELSE {})
                    \cup (IF c.utf8 # 1 THEN {"utf8"} ELSE {})
                    \cup (IF c.extra # 0 \/ e.more # 0 THEN {"descriptors"} ELSE {})
                    \cup (IF c.sig # <<>> THEN {"signals"} ELSE {})
                    \cup (IF e.fds # 1 THEN {"leaked descriptors"} ELSE {})
                    \cup (IF e.fl # <<1, 1>> THEN {"flags"} ELSE {})
                    \cup (IF e.ctl # 0 THEN {"terminal of the application"} ELSE {})
                    \cup (IF e.flushed # 0 \/ e.stray # 0 THEN {"stray"} ELSE {})
                    \cup (IF fails THEN {"result"} ELSE {})
       ELSE (IF e.r >= 0 \/ ~fails THEN {"result"} ELSE {})
            \cup (IF e.fds # 0 THEN {"leaked descriptors"} ELSE {})
            \cup (IF e.m # 0 THEN {"leak"} ELSE {})
            \cup (IF e.flushed # 0 \/ e.stray # 0 THEN {"stray"} ELSE {})
            \* (1000: the hang-up was faster than its end)
            \cup (IF e.x \notin {-1, 1, 1000} THEN {"child goes on"} ELSE {})
ToSet(q) == {q[k] : k \in 1..Len(q)}
Diffs(e, s, n) ==
    LET o == e.o IN
    IF o[1] = "open" THEN DiffsOpen(e, n)
    ELSE IF "n" \in DOMAIN e
    THEN (IF s.refs > 0 /\ o[1] \notin {"q", "exit", "say", "hear"}
          THEN {"harness"} ELSE {})
    ELSE CASE o[1] = "info" ->
                IF e.r = <<IF s.open THEN 1 ELSE 0,
                           IF s.open THEN 1 ELSE 0 - 32, 1>> THEN {}
                ELSE {"info"}
           [] o[1] = "q" ->
                (IF e.c.ws # <<s.w, s.h>> THEN {"size"} ELSE {})
                \cup (IF ~(s.got \subseteq ToSet(e.c.got))
                         \/ ~(ToSet(e.c.got) \subseteq s.got \cup s.may) THEN {"signals"} ELSE {})
           [] o[1] = "say" -> IF e.r = <<o[3], 0, o[3]>> THEN {} ELSE {"output"}
           [] o[1] = "hear" -> IF e.r = <<0, 0, o[3]>> THEN {} ELSE {"input"}
           [] OTHER -> IF e.r = Code(s, o) THEN {} ELSE {"result"}
Silent == {"fail", "fault", "std", "ignore", "block", "handle"}
After(e, s) ==
    IF e.o[1] = "open" THEN IF Opened(e) THEN Act(s, e.o) ELSE None
    ELSE IF "n" \in DOMAIN e THEN s ELSE Act(s, e.o)
Next ==
    /\ ~bad /\ i < Len(Traces[t].steps) /\ t' = t /\ i' = i + 1
    /\ LET e == Traces[t].steps[i + 1]
           silent == e.o[1] \in Silent
           k == IF silent THEN 0 ELSE e.o[2]
           d == TLCEval((IF silent THEN {} ELSE Diffs(e, w[k], i + 1))
                \cup (IF i + 1 = Len(Traces[t].steps) /\ Traces[t].left # 0
                      THEN {"leak"} ELSE {}))
       IN /\ w' = IF silent THEN w ELSE [w EXCEPT ![k] = TLCEval(After(e, @))]
          /\ bad' = (d # {})
          /\ d # {} => PrintT("MISMATCH " \o ToJson(
                [id |-> Traces[t].id, step |-> i, op |-> e.o, diffs |-> d,
                 detail |-> [real |-> e, spec |-> w[k]]]))
Spec == Init /\ [][Next]_vars
=============================================================================
